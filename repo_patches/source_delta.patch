From 04bc5fa7fcd36774ca2432e97493828b3ad0c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:12 +0000
Subject: [PATCH 01/84] fix: cross-reference table entries were 19 bytes long
 instead of 20

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index ddd4525..738b827 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -408,10 +408,10 @@ def format_xref_table(elems: list, trailer: dict, next_free: dict) -> bytes:
     xref_table = []
     for use, num, o_gen, counter, _ in elems:
         if use == 'f':
-            ref = f'{next_free[num]:010} {(o_gen+1):05} f'.encode('ascii')
+            ref = f'{next_free[num]:010} {(o_gen+1):05} f '.encode('ascii')
             xref_table.append((ref, num))
         else:
-            ref = f'{counter:010} {o_gen:05} n'.encode('ascii')
+            ref = f'{counter:010} {o_gen:05} n '.encode('ascii')
             xref_table.append((ref, num))
     # add_xref_table_subsections
     i = len(xref_table) - 1
-- 
2.43.0


From 130d7c0da8d241f8c6cd83be7e8c61e571869f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:13 +0000
Subject: [PATCH 02/84] fix: stream /Length was one byte too long, and stale
 when indirect or absent

---
 pdfsyntax/objects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 6eede1e..ef01801 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -33,9 +33,8 @@ def update_internal_stream_length(stream: Stream):
     """Calculate and apply /Length."""
     entries = stream['entries']
     encoded = stream['encoded']
-    length = len(encoded) + 1
-    if '/Length' in entries and type(entries['/Length']) == int:
-        entries['/Length'] = length
+    length = len(encoded)
+    entries['/Length'] = length
     return length
 
 
-- 
2.43.0


From 4ca4130c4d127d6249a21d17e77ec2d12a9e60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:13 +0000
Subject: [PATCH 03/84] fix: empty streams were written as plain dictionaries

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index ef01801..bbde05f 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -479,7 +479,7 @@ def serialize(obj, depth=0) -> bytes:
             ret += b' '
         ret += b' ' * depth
         ret += b'>>'
-        if content:
+        if content is not None:
             ret += b'\nstream\n'
             #ret += b'\n'
             ret += content
-- 
2.43.0


From 84f79732980f81a85f6499bf984076b34bc7aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:14 +0000
Subject: [PATCH 04/84] fix: stream data ending in a carriage return lost its
 last byte

---
 pdfsyntax/objects.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index bbde05f..0b09bb8 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -202,6 +202,22 @@ def dedicated_type(text: bytes, type: str) -> Any:
         return text
 
 
+def sized_stream_data(text: bytes, start: int, length: Any) -> bytes:
+    """Return stream data delimited by a direct /Length if it leads to endstream, else None."""
+    if type(length) != int or length < 0:
+        return None
+    if text[start:start+8] == b'stream\r\n':
+        b = start + 8
+    elif text[start:start+7] == b'stream\n':
+        b = start + 7
+    else:
+        return None
+    for eol in (b'\r\n', b'\n', b'\r', b''):
+        if text[b+length:b+length+11].startswith(eol + b'endstream'):
+            return text[b:b+length]
+    return None
+
+
 def parse_obj(text: bytes, start=0) -> Any:
     """Recursively parse bytes into PDF objects."""
     h1, j1, t1 = next_token(text, start)
@@ -213,7 +229,9 @@ def parse_obj(text: bytes, start=0) -> Any:
         following_obj = text[h2:j2]
         if t2 == 'STREAM': 
             stream_def =  parse_obj(obj)
-            stream_encoded =  parse_obj(following_obj)
+            stream_encoded =  sized_stream_data(text, h2, stream_def.get('/Length'))
+            if stream_encoded is None:
+                stream_encoded =  parse_obj(following_obj)
             stream_content = decode_stream(stream_encoded, stream_def)
             res = Stream(stream_def, stream_content, stream_encoded)
             return res
-- 
2.43.0


From 767bb92b4e93973fc3791e09fd828fa567a275d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:30 +0000
Subject: [PATCH 05/84] fix: objects freed by a cross-reference section came
 back when the file was read

---
 pdfsyntax/api.py        |  6 ++++--
 pdfsyntax/filestruct.py | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 6882cac..f422ef6 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -458,8 +458,10 @@ def cross_map_index(sections, index):
             continue
         for target in targets:
             target_num = int(target.imag)
-            target_pos = index[-1][target_num]['abs_pos']
-            _, _, _, target_used_by = ret[target_pos]
+            entry = index[-1][target_num] if target_num < len(index[-1]) else None
+            if entry is None or entry.get('abs_pos') not in ret:
+                continue
+            _, _, _, target_used_by = ret[entry['abs_pos']]
             target_used_by.append((o_num, abs_pos))
     return ret
 
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 738b827..56e4642 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -176,7 +176,10 @@ def parse_xref_table(bdata: bytes, start_pos: int, general_offset: int) -> list:
             table.append((f"{line[0]} {line[1]}".encode('ascii'), None))
         elif len(line) == 4:
             offset, o_num, o_gen, keyword = line
-            if keyword != b'f' and o_num != 0:
+            if keyword == b'f':
+                if o_num != 0:
+                    xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
+            elif o_num != 0:
                 xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
             table.append((f"{offset:010d} {o_gen:05d} {keyword.decode('ascii')} ".encode('ascii'), o_num))
             o_num += 1
@@ -216,6 +219,7 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             table.append((raw_line, o_num))
             continue
         if keyword == b'f':
+            xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
             continue
         if env_iref:
             #float_pos = envs[env_iref] + (offset + 1) / 10000
@@ -309,7 +313,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
-    nb = max(seq, key = lambda i: i[1])[1]
+    nb = max(i['o_num'] for x in chrono for i in x)
     return chrono, nxt, nb
 
 
@@ -347,6 +351,8 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
             if m[obj['o_num']] is None:
+                if 'DELETED' in obj:
+                    continue
                 obj['o_ver'] = 0
                 obj['doc_ver'] = doc_ver
             else:
@@ -365,7 +371,7 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             elif type(x) == dict:
                 x = [x]
             for y in x:
-                if y.get('abs_next'):
+                if y.get('abs_next') or 'DELETED' in y:
                     continue
                 abs_pos = y.get('abs_pos')
                 env_num = y.get('env_num')
@@ -631,7 +637,7 @@ def check_index_targets(object_map: list, xref_seq: list):
                 if pos is None:
                     pos = o.get('xref_stream_pos')
                 continue
-            elif o['o_num'] < 0:
+            elif o['o_num'] < 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
@@ -651,7 +657,7 @@ def check_not_indexed_objects(object_map: list, xref_seq: list):
     for xref in xref_seq:
         errors = []
         for o in xref:
-            if o['o_num'] <= 0:
+            if o['o_num'] <= 0 or 'DELETED' in o:
                 continue
             if 'env_num' in o:
                 k = ('EMB', o['o_num'], o['env_num'], o['o_pos'])
-- 
2.43.0


From 7600f5e734aed8b590b4bfde66c2eab01a2571d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:14 +0000
Subject: [PATCH 06/84] fix: browse failed on references to missing objects,
 reference-only objects and a leading xref

---
 pdfsyntax/display.py | 6 +++++-
 pdfsyntax/objects.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 12542eb..c85f93c 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -207,6 +207,7 @@ TRUNCATED = '<em> ...(truncated) </em>'
 def build_html(articles: list, index: list, cross: dict, filename: str, pages: list, structure: dict, file_size: int) -> str:
     """Compose the page layout."""
     page = HEADER
+    ver = -1
     for article in articles:
         abs_pos, _, typ, content = article
         if typ == 'STARTXREF':
@@ -480,7 +481,10 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
     if isinstance(obj, complex):
         o_num = int(obj.imag)
         o_gen = int(obj.real)
-        abs_pos = index[o_num].get('abs_pos')
+        entry = index[o_num] if o_num < len(index) else None
+        if not entry or 'abs_pos' not in entry:
+            return ret + f'{o_num} {o_gen} R'
+        abs_pos = entry['abs_pos']
         ret += f'<a href="#idx{abs_pos}">'
         ret += f'<span class="obj-link">{o_num} {o_gen} R</span>'
         ret += '</a>'
diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 0b09bb8..88d8b2c 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -533,7 +533,7 @@ def deep_ref_detect(obj: Any, l = None) -> set:
     if l is None:
         l = set()
     if type(obj) == complex:
-        return l.add(obj)
+        l.add(obj)
     elif type(obj) == Stream:
             deep_ref_detect(obj['entries'], l)
     elif type(obj) == dict:
-- 
2.43.0


From 785c6680c3b800979114a712556724f00689f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:15 +0000
Subject: [PATCH 07/84] fix: references to missing objects and unused object
 numbers raised errors

---
 pdfsyntax/docstruct.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index f989b16..118a0f5 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -224,7 +224,7 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
     """
     if cache is None:
         cache = (key + 1) * [None]
-    if 'DELETED' in idx[rev][key]:
+    if idx[rev][key] is None or 'DELETED' in idx[rev][key]:
         return cache
     if  cache[key] != None:
         return cache
@@ -288,6 +288,8 @@ def get_object(doc: Doc, obj):
     """Return raw object or the target of an indirect reference."""
     if isinstance(obj, complex) == True:
         ref = int(obj.imag)
+        if ref >= len(doc.index[-1]):
+            return None
         res = memoize_obj_in_cache(doc.index, doc.data[-1]['fdata'], ref, doc.cache)
         return deepcopy(res[ref])
     else: 
@@ -382,6 +384,8 @@ def envelopes(doc: Doc):
     res = {}
     current = doc.index[-1]
     for i, x in enumerate(current):
+        if type(x) != dict:
+            continue
         env_num = x.get('env_num')
         if env_num:
             if env_num not in res:
@@ -417,7 +421,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
 
 def envelope_objects(doc: Doc):
     """List objects streams that envelope other objects."""
-    return {o.get('env_num') for o in doc.index[-1] if o.get('env_num')}
+    return {o.get('env_num') for o in doc.index[-1] if type(o) == dict and o.get('env_num')}
 
 
 def version(doc: Doc) -> str:
@@ -822,7 +826,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
     for i, o in enumerate(current_index):
         if i == 0: #trailer
             continue
-        if 'DELETED' in o or i in excluded:
+        if o is None or 'DELETED' in o or i in excluded:
             continue
         else:
             nb += 1
-- 
2.43.0


From 408bbfdec8113aebec5a5f503e93e0a76ac8b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:16 +0000
Subject: [PATCH 08/84] fix: reading an object of an object stream overwrote
 newer versions of its siblings

---
 pdfsyntax/docstruct.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 118a0f5..08e7ba0 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -275,12 +275,18 @@ def memoize_obj_in_cache(idx: list, fdata: Callable, key: int, cache=None, rev=-
         stream_obj = parse_obj(text, i)
         if container >= len(cache):
             cache += (container-len(cache)+1) * [None]
-        cache[container] = stream_obj
+        if cache[container] is None:
+            cache[container] = stream_obj
         _, _, _, obj_list = parse_object_stream(stream_obj, container)
         for o_num, embedded_obj, _, _, _ in obj_list:
+            if o_num >= len(idx[rev]) or idx[rev][o_num] is None:
+                continue
+            if idx[rev][o_num].get('env_num') != container:
+                continue #Updated, deleted or stored elsewhere since
             if o_num >= len(cache):
                 cache += (o_num-len(cache)+1) * [None]
-            cache[o_num] = embedded_obj
+            if cache[o_num] is None:
+                cache[o_num] = embedded_obj
     return cache
 
 
-- 
2.43.0


From 9f850ec686cd70a97473c1ffb044f00c6188dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:16 +0000
Subject: [PATCH 09/84] fix: inherited page attributes leaked from one document
 into all others

---
 pdfsyntax/docstruct.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 08e7ba0..75ae683 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -310,9 +310,11 @@ def obj(doc: Doc, o_num, o_gen = None):
     return get_object(doc, iref)
 
 
-def flat_page_tree(doc: Doc, num=None, inherited={}, max_nb=None) -> list:
+def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
     """Recursively list the pages of a node."""
     accu = []
+    if inherited is None:
+        inherited = {}
     if num:
         node = get_object(doc, num)
     else:
@@ -322,8 +324,8 @@ def flat_page_tree(doc: Doc, num=None, inherited={}, max_nb=None) -> list:
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
             inherited.update(e)
             accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
-            if max_nb is not None and len(accu) == max_nb:
-                return accu
+            if max_nb is not None and len(accu) >= max_nb:
+                return accu[:max_nb]
         return accu
     elif node['/Type'] == '/Page':
         return[(num, inherited)]
-- 
2.43.0


From 2e7e39f22167d2be97c4ea939c3f9d0c34585688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:05 +0000
Subject: [PATCH 10/84] fix: an object added and deleted in the same revision
 could not be saved

---
 pdfsyntax/docstruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 75ae683..3159872 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -374,6 +374,9 @@ def changes(doc: Doc, rev: int=-1):
             continue
         if 'xref_stream_num' in current[0] and current[0]['xref_stream_num'] == i:
             continue
+        if 'DELETED' in current[i]:
+            if i > len(previous)-1 or previous[i] is None or 'DELETED' in previous[i]:
+                continue #Never existed in previous revision
         if i > len(previous)-1:
             res.append((iref, 'a'))
         elif i < len(previous) and previous[i] == current[i]:
-- 
2.43.0


From 3121698f9ac6482d24ed32c2183cf870ae8e369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:06 +0000
Subject: [PATCH 11/84] fix: commit, force_xref_stream and
 group_obj_into_stream modified the document they were given

---
 pdfsyntax/docstruct.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 3159872..8312d98 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -425,7 +425,7 @@ def group_obj_into_stream(doc: Doc , env_num: int = None, o_nums: set = None):
         elif current[o]['o_gen'] != 0:
             continue
         # TODO Add another elif for encryption dict
-        current[o]['env_num'] = env_num
+        current[o] = {**current[o], 'env_num': env_num}
     new_doc.cache[env_num] = Stream({'/Type': '/ObjStm'}, b'', b'')
     return new_doc
 
@@ -568,17 +568,19 @@ def commit(doc: Doc) -> Doc:
     nb_rev = len(doc.index)
     new_doc = copy_doc(doc, revision='NEXT')
     new_index0 = {'o_num': 0, 'o_gen': 0, 'o_ver': nb_rev, 'doc_ver': nb_rev}
+    new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
     if type(doc.index[0][0]) == dict:
         x_num = doc.index[0][0].get('xref_stream_num')
     else: #TODO
         x_num = doc.index[0][0][0].get('xref_stream_num')
     if x_num:
-        new_index0['xref_stream_num'] = -1
         if x_num == -1:
             x_num = len(current_index)
             new_index_xs = {'o_num': x_num, 'o_gen': 0, 'o_ver': 0, 'doc_ver': nb_rev-1}
             new_doc.index[-1].append(new_index_xs)
+            new_doc.cache.append(None)
             new_doc.index[-1][0]['xref_stream_num'] = x_num
+        new_index0['xref_stream_num'] = x_num
         if new_doc.cache[0].get('/DecodeParms'):
             del new_doc.cache[0]['/DecodeParms']
     new_doc.cache[0]['/Size'] = len(new_doc.index[-1])
@@ -701,7 +703,7 @@ def force_xref_stream(doc: Doc, placeholder: bool = False, filt: str = '/FlateDe
         new_doc.index[-1][0] = deepcopy(new_doc.index[-1][0])
         new_doc.index[-1][0]['xref_stream_num'] = -1
     if filt:
-        new_doc.cache[0]['/Filter'] = filt
+        new_doc.cache[0] = {**new_doc.cache[0], '/Filter': filt}
     return new_doc
 
 
-- 
2.43.0


From a7e4a5b21d552319b643eeea8853c0db1a879bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:06 +0000
Subject: [PATCH 12/84] fix: linearized documents could not be loaded or
 updated

---
 pdfsyntax/docstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8312d98..0a0971c 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -606,7 +606,8 @@ def commit(doc: Doc) -> Doc:
     new_doc.index.append(new_v)
     new_trailer = new_doc.cache[0]
     if type(new_doc.index[-2][0]) == list: #Linearized
-        new_trailer['/Prev'] = new_doc.index[-2][1].get('xref_table_pos') or new_doc.index[-2][1].get('xref_stream_pos')
+        first_page_trailer = new_doc.index[-2][0][-1]
+        new_trailer['/Prev'] = first_page_trailer.get('xref_table_pos') or first_page_trailer.get('xref_stream_pos')
     else:
         new_trailer['/Prev'] = new_doc.index[-2][0].get('xref_table_pos') or new_doc.index[-2][0].get('xref_stream_pos')
     if '/XRefStm' in new_trailer:
-- 
2.43.0


From 513a8714829a9992d28c05040ff544f1e2840902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:07 +0000
Subject: [PATCH 13/84] fix: a revision with only deletions or very short could
 not be written with an xref stream

---
 pdfsyntax/filestruct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 56e4642..9ce50a5 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -452,7 +452,7 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
     max_counter = max([e[3] for e in elems if e[3] is not None])
-    b = (int(math.log2(max_counter+1)) // 8) + 1
+    b = max(2, (max_counter.bit_length() + 7) // 8) #At least 2 for generation number 65535
     trailer['/W'] = [1, b, b]
     for use, num, o_gen, counter, env_num in elems:
         if use == 'f':
@@ -593,7 +593,7 @@ def build_revision_byte_stream(
         xref_table.append(('n', xref_stream_num, 0, counter, None))
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
-        new_index[xref_stream_num]['abs_next'] = counter + len(block)
+        new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
         new_index[0]['xref_stream_pos'] = counter
         new_index[0]['abs_pos'] = counter
         new_index[0]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From 03ed50381908faaa391f210a2fbe1865b8dbf40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:07 +0000
Subject: [PATCH 14/84] fix: object streams were written from stale content
 when their revision was written again

---
 pdfsyntax/filestruct.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 9ce50a5..5cf0813 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -523,18 +523,24 @@ def get_pos_in_stream(envelope):
     return pos
 
 
+def empty_envelope(envelope):
+    """Build an empty object stream that keeps the general attributes of an existing one."""
+    positional = '/First /N /FirstLine /Length /DecodeParms /Extends'.split()
+    entries = {k: v for k, v in envelope['entries'].items() if k not in positional}
+    return Stream(entries, b'', None)
+
+
 def finalize_stream(envelope):
     """Add index at the beginning of stream and count objects."""
     header = b''
     entries = envelope['entries'].copy()
     if '/First' not in entries and '/N' not in entries:
-        tokens = entries['/FirstLine']
+        tokens = entries.pop('/FirstLine', [])
         for i in tokens:
             header += f'{i} '.encode('ascii')
         header += b'\n'
         entries['/First'] = len(header)
         entries['/N'] = len(tokens) // 2
-        del entries['/FirstLine']
     entries['/Length'] = -1
     new_ser = header + envelope['stream']
     envelope, _ = forge_stream(entries, new_ser)
@@ -553,25 +559,30 @@ def build_revision_byte_stream(
     fragments.append(MARGIN)
     next_free = circular_deleted(changes)
     l = [(0j, 'd')] + changes
+    envs = {}
     for c, action in l:
         num = int(c.imag)
-        o_gen = current_index[num]['o_gen']
-        env_num = current_index[num].get('env_num')
+        o_gen = new_index[num]['o_gen']
+        if not xref_stream_num and 'env_num' in new_index[num]:
+            del new_index[num]['env_num'] #Only xref streams can address objects streams
+        env_num = new_index[num].get('env_num')
         if action != 'd' and env_num:
-            new_env = append_to_stream_fragment(num, cache[num], cache[env_num])
-            cache[env_num] = new_env
-            xref_table.append(('n', num, o_gen, get_pos_in_stream(new_env), env_num))
+            env = envs.get(env_num) or empty_envelope(cache[env_num])
+            envs[env_num] = append_to_stream_fragment(num, cache[num], env)
+            xref_table.append(('n', num, o_gen, get_pos_in_stream(envs[env_num]), env_num))
+    for env_num in envs:
+        cache[env_num] = finalize_stream(envs[env_num])
     for c, action in l:
         num = int(c.imag)
         if action == 'd':
             if num == 0:
                 o_gen = 65535 - 1
             else:
-                o_gen = current_index[num]['o_gen']
+                o_gen = new_index[num]['o_gen']
             xref_table.append(('f', num, o_gen, None, None))
         else:
-            o_gen = current_index[num]['o_gen']
-            env_num = current_index[num].get('env_num')
+            o_gen = new_index[num]['o_gen']
+            env_num = new_index[num].get('env_num')
             if not env_num:
                 obj = cache[num]
                 if type(obj) == Stream and obj['entries'].get('/Type') == '/ObjStm':
-- 
2.43.0


From d163216a71c7a7416a3719f11590f3b1638c68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:52 +0000
Subject: [PATCH 15/84] fix: references lost their generation, and were not
 renumbered in stream dictionaries

---
 pdfsyntax/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 88d8b2c..150d62a 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -178,7 +178,7 @@ def replace_ref(tokens: list) -> list:
     i = 0
     while i < size:
         if i < size - 2 and tokens[i + 2]  == 'R':
-            new_list.append(complex(0, tokens[i]))
+            new_list.append(complex(tokens[i + 1], tokens[i]))
             i += 3
         else:
             new_list.append(tokens[i])
@@ -519,6 +519,8 @@ def deep_ref_retarget(obj: Any, mapping: dict) -> Any:
     if type(obj) == complex:
         if obj in mapping:
             return mapping[obj]
+    elif type(obj) == Stream:
+        deep_ref_retarget(obj['entries'], mapping)
     elif type(obj) == dict:
         for k in obj:
             obj[k] = deep_ref_retarget(obj[k], mapping)
-- 
2.43.0


From 1b97293d8a7a45ea57c25d8bb3fbe0e360797653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:52 +0000
Subject: [PATCH 16/84] fix: squash lost /Info and /ID, kept stale object
 streams and redirected dangling references

---
 pdfsyntax/docstruct.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 0a0971c..c856485 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -854,6 +854,10 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
                 del new_o['abs_pos']
             if 'abs_next' in new_o:
                 del new_o['abs_next']
+            if 'env_num' in new_o:
+                del new_o['env_num']
+            if 'o_pos' in new_o:
+                del new_o['o_pos']
             new_index.append(new_o)
             new_ref = complex(0, nb) 
             if old_ref != new_ref:
@@ -861,25 +865,36 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
     return new_index, mapping
 
 
+def retarget_or_nullify(obj: Any, mapping: dict, live: set) -> Any:
+    """Retarget references and replace those to objects that do not exist with null."""
+    dead = deep_ref_detect(obj) - live
+    return deep_ref_retarget(obj, {**mapping, **{ref: 'null' for ref in dead}})
+
+
 def squash(doc: Doc) -> Doc:
     """Group all revisions into a single one."""
-    obj_stms = envelope_objects(doc)
     if type(doc.index[0][0]) == dict:
         xref_stream_num = doc.index[0][0].get('xref_stream_num')
     else: #TODO
         xref_stream_num = doc.index[0][0][0].get('xref_stream_num')
     old_index = doc.index[-1]
-    new_index, mapping = defragment_map(old_index, set())
+    structural = set()
+    for iref in in_use(doc):
+        obj = get_object(doc, iref)
+        if type(obj) == Stream and obj['entries'].get('/Type') in ('/ObjStm', '/XRef'):
+            structural.add(int(iref.imag))
+    new_index, mapping = defragment_map(old_index, structural)
+    live = {x['OLD_REF'] for x in new_index[1:]}
     if xref_stream_num:
-        new_index[0]['xref_stream_num'] = xref_stream_num
+        new_index[0]['xref_stream_num'] = -1
     new_cache = len(new_index) * [None]
     new_data = [{}]
-    new_cache[0] = {'/Root': trailer(doc)['/Root']}
-    new_cache[0] = deep_ref_retarget(new_cache[0], mapping)
+    new_cache[0] = {k: v for k, v in trailer(doc).items() if k in ('/Root', '/Info', '/ID')}
+    new_cache[0] = retarget_or_nullify(new_cache[0], mapping, live)
     for i in range(1, len(new_index)):
         old_ref = new_index[i]['OLD_REF']
         obj = get_object(doc, old_ref)
-        obj = deep_ref_retarget(obj, mapping)
+        obj = retarget_or_nullify(obj, mapping, live)
         new_cache[i] = obj
     new_doc = Doc([new_index], new_cache, new_data)
     chg = changes(new_doc)
-- 
2.43.0


From 81b21b71c85bfd6e5eba6dd546910a7e6681a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:52 +0000
Subject: [PATCH 17/84] fix: page operations broke on cyclic references,
 concatenated trees and resources of form streams

---
 pdfsyntax/docstruct.py | 51 +++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c856485..fe3653e 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -730,8 +730,7 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     source_doc = squash(source_doc)
     source_cat, source_cat_iref = catalog(source_doc)
     source_pages_iref = source_cat['/Pages']
-    source_pages = get_object(source_doc, source_pages_iref)
-    source_pcount = get_object(source_doc, source_pages['/Count'])
+    source_pcount = number_pages(source_doc)
     source_doc = update_object(source_doc, int(source_cat_iref.imag), None)
     x_num = source_doc.index[-1][0].get('xref_stream_num')
     if x_num and x_num > 0:
@@ -743,42 +742,42 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
         ir += 1j
     for iref in objs:
         obj = get_object(source_doc, iref)
-        new_obj = deep_ref_retarget(obj, mapping)
+        new_obj = retarget_or_nullify(obj, mapping, set(objs))
         new_doc, _ = add_object(new_doc, new_obj, immut=False)
-    pages_iref = cat['/Pages']
-    pages = get_object(new_doc, pages_iref)
-    pcount = get_object(new_doc, pages['/Count'])
-    kids = get_object(new_doc, pages['/Kids'])
-    if target_left:
-        kids.append(mapping[source_pages_iref])
-    else:
-        kids.insert(0, mapping[source_pages_iref])
-    pages['/Kids'] = kids
-    pages['/Count'] = pcount + source_pcount
-    new_doc = update_object(new_doc, int(pages_iref.imag), pages, immut=False)
+    #Both page trees become siblings, so that no attribute is inherited from the other one
+    kids = [cat['/Pages'], mapping[source_pages_iref]]
+    if not target_left:
+        kids.reverse()
+    root = {'/Type': '/Pages', '/Kids': kids, '/Count': number_pages(new_doc) + source_pcount}
+    new_doc, root_iref = add_object(new_doc, root, immut=False)
+    for kid in kids:
+        node = get_object(new_doc, kid)
+        node['/Parent'] = root_iref
+        new_doc = update_object(new_doc, int(kid.imag), node, immut=False)
+    cat['/Pages'] = root_iref
+    new_doc = update_object(new_doc, int(cat_iref.imag), cat, immut=False)
     return new_doc
 
 
-def dependencies(doc: Doc, obj: Any) -> set:
+def dependencies(doc: Doc, obj: Any, seen: set = None) -> set:
     """Recursively list indirect references found inside object.""" 
+    if seen is None:
+        seen = set()
+    if type(obj) == Stream:
+        obj = obj['entries']
     if type(obj) == dict:
-        res = set()
         for k, v in obj.items():
             if k == '/Parent' or k == '/P':
                 continue
-            res = res | dependencies(doc, v)
-        return res
+            dependencies(doc, v, seen)
     elif type(obj) == list:
-        res = set()
         for i in obj:
-            res = res | dependencies(doc, i)
-        return res
+            dependencies(doc, i, seen)
     elif type(obj) == complex:
-        res = {obj}
-        res = res | dependencies(doc, get_object(doc, obj))
-        return res
-    else:   
-        return set()
+        if obj not in seen:
+            seen.add(obj)
+            dependencies(doc, get_object(doc, obj), seen)
+    return seen
 
 
 def keep_pages(doc: Doc, pages) -> Doc:
-- 
2.43.0


From 2fc8213791e4b3d399b18011171a9f82ccc123c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:23 +0000
Subject: [PATCH 18/84] fix: long chains of references between pages exceeded
 the recursion limit

---
 pdfsyntax/docstruct.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index fe3653e..7c9c585 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -759,25 +759,22 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     return new_doc
 
 
-def dependencies(doc: Doc, obj: Any, seen: set = None) -> set:
-    """Recursively list indirect references found inside object.""" 
-    if seen is None:
-        seen = set()
-    if type(obj) == Stream:
-        obj = obj['entries']
-    if type(obj) == dict:
-        for k, v in obj.items():
-            if k == '/Parent' or k == '/P':
-                continue
-            dependencies(doc, v, seen)
-    elif type(obj) == list:
-        for i in obj:
-            dependencies(doc, i, seen)
-    elif type(obj) == complex:
-        if obj not in seen:
-            seen.add(obj)
-            dependencies(doc, get_object(doc, obj), seen)
-    return seen
+def dependencies(doc: Doc, obj: Any) -> set:
+    """List indirect references found inside object and inside its targets.""" 
+    res = set()
+    todo = [obj]
+    while todo:
+        o = todo.pop()
+        if type(o) == Stream:
+            o = o['entries']
+        if type(o) == dict:
+            todo.extend(v for k, v in o.items() if k != '/Parent' and k != '/P')
+        elif type(o) == list:
+            todo.extend(o)
+        elif type(o) == complex and o not in res:
+            res.add(o)
+            todo.append(get_object(doc, o))
+    return res
 
 
 def keep_pages(doc: Doc, pages) -> Doc:
-- 
2.43.0


From cd936bef40db828c1eab0816c08be73f8de45c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:23 +0000
Subject: [PATCH 19/84] fix: the revision reached by rewind could not be
 written again for most file layouts

---
 pdfsyntax/docstruct.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7c9c585..769a620 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -628,6 +628,24 @@ def rewind(doc: Doc) -> Doc:
     new_doc.cache.extend(build_cache(doc.data[-1]['fdata'], new_doc.index))
     for o in objs:
         get_object(new_doc, o)
+    current = new_doc.index[-1]
+    if type(current[0]) == list: #Linearized
+        x_num = current[0][0].get('xref_stream_num')
+        current[0] = {k: current[0][0][k] for k in ('o_num', 'o_gen', 'o_ver', 'doc_ver')}
+        if x_num:
+            current[0]['xref_stream_num'] = x_num
+    #The xref of this revision is going to be built again
+    first = new_doc.index[0][0]
+    x_num = (first[0] if type(first) == list else first).get('xref_stream_num')
+    previous = new_doc.index[-2] if len(new_doc.index) > 1 else []
+    for i in range(1, len(current)):
+        o = new_doc.cache[i]
+        if type(o) == Stream and o['entries'].get('/Type') == '/XRef' and i != x_num:
+            current[i] = previous[i] if i < len(previous) else None
+            new_doc.cache[i] = None
+    new_doc.cache[0].pop('/XRefStm', None)
+    if len(new_doc.index) == 1:
+        new_doc.cache[0].pop('/Prev', None)
     return new_doc
 
 
-- 
2.43.0


From ef3426aca53b07a7762365b3b73f5cdbe6f18508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:45 +0000
Subject: [PATCH 20/84] fix: filters turned interruptions and memory shortage
 into wrong stream data

---
 pdfsyntax/filters.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index bcfc9e8..3b42632 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -46,17 +46,23 @@ def decode_stream(stream, stream_def):
                     predictor = int(parms[i]['/Predictor'])
                     columns = int(parms[i]['/Columns'])
                     res = decode_predictor(res, predictor, columns)
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
                 res = binascii.unhexlify(s)
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 return b'#PDFSyntaxException: cannot decode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
                 res = base64.a85decode(s, adobe=True)
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
             return b'#PDFSyntaxException: unsupported filter'
@@ -75,17 +81,23 @@ def encode_stream(stream, stream_def):
         if f == '/FlateDecode':
             try:
                 res = zlib.compress(res)
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 return b'#PDFSyntaxException: cannot encode Flate'
         elif f == '/ASCIIHexDecode':
             try:
                 res = asciihex(res)
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
                 res = base64.a85encode(res, adobe=True)
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 return b'#PDFSyntaxException: cannot encode ASCII85'
         else:
             return b'#PDFSyntaxException: unsupported filter'
-- 
2.43.0


From 2226beec3b179a94e79241ab0d0dd7a91ce4f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:46 +0000
Subject: [PATCH 21/84] fix: filter chains were decoded and encoded in the
 wrong order

---
 pdfsyntax/filters.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 3b42632..60bbbbb 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -32,7 +32,9 @@ def decode_stream(stream, stream_def):
     if type(filters) == str:
         #filters = [filters]
         filters = filters.split()
-    if '/DecodeParms' not in stream_def:
+    if not stream_def.get('/DecodeParms'):
+        parms = [None] * len(filters)
+    elif '/DecodeParms' not in stream_def:
         parms = [None] * len(filters)
     else:
         parms = stream_def['/DecodeParms']
@@ -42,9 +44,9 @@ def decode_stream(stream, stream_def):
         if f == '/FlateDecode':
             try:
                 res = zlib.decompress(s)
-                if parms[i] and '/Predictor' in parms[i]:
+                if type(parms[i]) == dict and parms[i].get('/Predictor', 1) != 1:
                     predictor = int(parms[i]['/Predictor'])
-                    columns = int(parms[i]['/Columns'])
+                    columns = int(parms[i].get('/Columns', 1))
                     res = decode_predictor(res, predictor, columns)
             except MemoryError:
                 raise
@@ -66,7 +68,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode ASCII85'
         else:
             return b'#PDFSyntaxException: unsupported filter'
-    return res
+        s = res
+    return s
 
 
 def encode_stream(stream, stream_def):
@@ -77,7 +80,7 @@ def encode_stream(stream, stream_def):
     if type(filters) == str:
         filters = [filters]
     res = stream
-    for _, f in enumerate(filters):
+    for f in reversed(filters):
         if f == '/FlateDecode':
             try:
                 res = zlib.compress(res)
-- 
2.43.0


From 50f937611d0476a7fc7e65a1318e60f016c00810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:46 +0000
Subject: [PATCH 22/84] fix: compress destroyed streams it cannot decode and
 failed on filter arrays

---
 pdfsyntax/api.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index f422ef6..daf53cb 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -219,11 +219,16 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
         if '/Filter' in entries:
             if entries['/Filter'] == flt:
                 continue
-            else:
-                for e in entries['/Filter'].split():
-                    if e not in DECODED_FILTERS:
-                        continue
+            filters = entries['/Filter']
+            if type(filters) == str:
+                filters = filters.split()
+            if any(f not in DECODED_FILTERS for f in filters):
+                continue
+            if o['stream'].startswith(b'#PDFSyntaxException'):
+                continue
         entries = deepcopy(entries)
+        if '/DecodeParms' in entries:
+            del entries['/DecodeParms']
         if '/Filter' in entries and flt == '':
             del entries['/Filter']
         else:
-- 
2.43.0


From 54c16a688f3d662423fb044d86466e236fcae09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:47 +0000
Subject: [PATCH 23/84] fix: small and big real numbers were written with an
 exponent

---
 pdfsyntax/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 150d62a..9deab70 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -3,6 +3,7 @@
 from typing import Any
 from collections import namedtuple
 from dataclasses import dataclass
+from decimal import Decimal
 from .filters import *
 #from .filestruct import expand_xref_index
 
@@ -465,7 +466,7 @@ def to_str(obj) -> bytes:
     elif type(obj) == int:
         return str(obj).encode('ascii')
     elif type(obj) == float:
-        return str(obj).encode('ascii')
+        return format(Decimal(repr(obj)), 'f').encode('ascii') #No exponent in PDF
     elif type(obj) == str:
         return obj.encode('ascii')
     elif type(obj) == complex:
-- 
2.43.0


From 6f56ce3ad9b8a6e2ca9222e4a7ce3c07cb0c8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:08 +0000
Subject: [PATCH 24/84] fix: a stray closing bracket made the parser loop
 forever

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 9deab70..982518a 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -74,7 +74,7 @@ def next_token(text: bytes, i=0) -> tuple:
         double = text[i:i+2]
         if search == "TBD":
             if single == b']':
-                return (h, i, None)
+                return (h, i+1, None)
             elif double == b'>>':
                 return (h, i+1, None)
             elif double == b'<<':
-- 
2.43.0


From ef8331589d4b24763b0d77b2df598f045934d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:09 +0000
Subject: [PATCH 25/84] fix: delimiters and escapes inside strings were
 mistaken for structure

---
 pdfsyntax/objects.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 982518a..1597017 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -67,7 +67,6 @@ def next_token(text: bytes, i=0) -> tuple:
     """Find next token in raw string starting at some index."""
     search = "TBD"
     nested = 1
-    text_in_array = 0
     h = i
     while i < len(text):
         single = text[i:i+1]
@@ -103,7 +102,10 @@ def next_token(text: bytes, i=0) -> tuple:
                 search = "COMMENT"
             h = i
         elif search == "DICT":
-            if double == b'<<':
+            if single == b'(':
+                _, i, _ = next_token(text, i)
+                continue
+            elif double == b'<<':
                 nested += 1
                 i += 1
             elif double == b'>>':
@@ -120,7 +122,7 @@ def next_token(text: bytes, i=0) -> tuple:
             if single in EOL:
                 return (h, i, 'COMMENT')
         elif search == "LSTRING":
-            if double == b'\\(' or double == b'\\)':
+            if single == b'\\':
                 i += 1
             elif single == b'(':
                 nested += 1
@@ -159,12 +161,11 @@ def next_token(text: bytes, i=0) -> tuple:
                 return (h, i+9, 'STREAM')
         elif search == "ARRAY":
             if single == b'(':
-                text_in_array = 1
-            elif single == b')':
-                text_in_array = 0
-            elif text_in_array == 0 and single == b'[':
+                _, i, _ = next_token(text, i)
+                continue
+            elif single == b'[':
                 nested += 1
-            elif text_in_array == 0 and single == b']':
+            elif single == b']':
                 nested -= 1
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
-- 
2.43.0


From 194cac7136582bb9555578d9a0f8b61469ff20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:09 +0000
Subject: [PATCH 26/84] fix: annotation text was not escaped and pages with a
 direct /Annots array were refused

---
 pdfsyntax/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index daf53cb..c42b01f 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -240,6 +240,8 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
 
 def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened: bool = False) -> Doc:
     """Add simple text annotation."""
+    for c, escaped in ('\\', '\\\\'), ('(', '\\('), (')', '\\)'), ('\r', '\\r'):
+        text = text.replace(c, escaped)
     annot = {
         '/Type': '/Annot',
         '/Subtype': '/Text',
@@ -254,7 +256,11 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
         annot_obj = new_page['/Annots']
         new_array = deepcopy(get_object(doc, new_page['/Annots']))
         new_array.append(a_iref)
-        doc = update_object(doc, int(annot_obj.imag), new_array)
+        if type(annot_obj) == complex:
+            doc = update_object(doc, int(annot_obj.imag), new_array)
+        else:
+            new_page['/Annots'] = new_array
+            doc = update_object(doc, int(page_ref.imag), new_page)
     else:
         annot_array = [a_iref]
         doc, aa_iref = add_object(doc, annot_array)
-- 
2.43.0


From 80e07d56e140de42ce7e8e20d313ce2ab0ae060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:10 +0000
Subject: [PATCH 27/84] fix: data length of new documents was unavailable and
 the first byte of an update was not readable

---
 pdfsyntax/docstruct.py  | 2 +-
 pdfsyntax/filestruct.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 769a620..a5b00da 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -542,7 +542,7 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
             #_, _, _, sz = fdata(None, -1)
             sz = index
             return (None, None, None, sz + len(bdata))
-        if start_pos > index:
+        if start_pos >= index:
             start_pos = start_pos - index
             #if start_pos == -1 and length == 0:
             #    return (None, None, None, len(bdata))
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 5cf0813..d59c9bc 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -59,7 +59,7 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
 def bdata_dummy(bdata: bytes):
     """ """
     def dummy_load(start_pos: int, length: int) -> tuple:
-        if start_pos == -1 and length == 0:
+        if start_pos == None and length == -1:
             return (None, None, None, len(bdata))
         if length == -1:
             length = len(bdata) - start_pos
-- 
2.43.0


From e40841df11740c3cbb9559497cc81a8ba03a72f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:24 +0000
Subject: [PATCH 28/84] fix: a circular chain of cross-reference sections was
 followed forever

---
 pdfsyntax/filestruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index d59c9bc..76769b9 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -258,6 +258,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     prev_eof = None
     chrono = []
     seq = []
+    visited = set()
     while start or prev or xrefstm:
         a0 = 0
         o0 = 0
@@ -281,6 +282,9 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             eof_pos = o0 + bdata.find(EOF, xref_pos)
             last = eof_pos
             prev = False
+        if xref_pos in visited:
+            raise ValueError(f'Circular chain of xref sections at position {xref_pos}')
+        visited.add(xref_pos)
         bdata, a0, o0, _ = fdata(xref_pos, last - xref_pos)
         if bdata[a0:a0+4] == XREF:
             xref_index = parse_xref_table(bdata, a0, o0)
-- 
2.43.0


From f7880dadb3e573f1d3f5000f37595f720c00ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:25 +0000
Subject: [PATCH 29/84] fix: updates of a file without its last end-of-file
 marker were written at wrong offsets

---
 pdfsyntax/filestruct.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 76769b9..6c99da6 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -265,7 +265,8 @@ def build_xref_sequence(fdata: Callable) -> tuple:
         if start:
             start = False
             bdata, a0, o0, _ = fdata(-100, -1)
-            eof_pos = o0 + bdata.rfind(EOF, a0)
+            eof_pos = bdata.rfind(EOF, a0)
+            eof_pos = o0 + eof_pos if eof_pos != -1 else bdata_length(fdata)
             startxref_pos = o0 + bdata.rfind(STARTXREF, a0)
             i, j, _ = next_token(bdata, startxref_pos + len(STARTXREF) - o0)
             xref_pos = int(bdata[i:j])
@@ -390,6 +391,8 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
 
 def eof_cut(eof_index: int, fdata: Callable) -> int:
     """Calculate where to cut the byte stream of a revision: after %%EOF and possibly EOLs"""
+    if eof_index >= bdata_length(fdata):
+        return eof_index
     bdata, start, _, n = fdata(eof_index, bdata_length(fdata) - eof_index)
     i = start + len('%%EOF')
     while i < start + n:
-- 
2.43.0


From bbf17313b8ed8697fb7b8182b253712f0f7165e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:53 +0000
Subject: [PATCH 30/84] fix: the CONTINUOUS mode could not load any document

---
 pdfsyntax/filestruct.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 6c99da6..f647d49 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -11,6 +11,17 @@ from .filters import *
 MARGIN = b'\n'
 
 
+def read_exactly(file_obj, size: int) -> bytes:
+    """Read size bytes even if the file object delivers them piecemeal."""
+    bdata = b''
+    while len(bdata) < size:
+        part = file_obj.read(size - len(bdata))
+        if not part:
+            raise EOFError(f'Only {len(bdata)} bytes could be read instead of {size}')
+        bdata += part
+    return bdata
+
+
 def bdata_provider(data_source, mode: str = "SINGLE"):
     """Build - with a higher order function - an interface to binary data.
     
@@ -51,8 +62,8 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
             else:
                 nb_read = min(file_size - i, length)
             file_obj.seek(i)
-            bdata = file_obj.read(nb_read)
-            return (bdata, i, 0, nb_read)
+            bdata = read_exactly(file_obj, nb_read)
+            return (bdata, 0, i, nb_read)
         return continuous_load
 
 
@@ -273,14 +284,16 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             last = startxref_pos
         elif xrefstm:
             xref_pos = xrefstm
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             xrefstm = False
         elif prev:
             xref_pos = prev
-            startxref_pos = o0 + bdata.find(STARTXREF, xref_pos)
-            eof_pos = o0 + bdata.find(EOF, xref_pos)
+            bdata, a0, o0, _ = fdata(xref_pos, -1)
+            startxref_pos = o0 + bdata.find(STARTXREF, a0)
+            eof_pos = o0 + bdata.find(EOF, a0)
             last = eof_pos
             prev = False
         if xref_pos in visited:
@@ -294,7 +307,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             trailer = parse_obj(bdata[i:j])
         else: # must be a /XRef stream
             bdata, a0, o0, _ = fdata(xref_pos, startxref_pos - xref_pos)
-            i, j, _ = next_token(bdata, a0 - o0) #o_num
+            i, j, _ = next_token(bdata, a0)      #o_num
             o_num = parse_obj(bdata, i)
             i, j, _ = next_token(bdata, j)       #o_ver
             i, j, _ = next_token(bdata, j)       #b'obj'
@@ -393,13 +406,13 @@ def eof_cut(eof_index: int, fdata: Callable) -> int:
     """Calculate where to cut the byte stream of a revision: after %%EOF and possibly EOLs"""
     if eof_index >= bdata_length(fdata):
         return eof_index
-    bdata, start, _, n = fdata(eof_index, bdata_length(fdata) - eof_index)
+    bdata, start, o0, n = fdata(eof_index, bdata_length(fdata) - eof_index)
     i = start + len('%%EOF')
     while i < start + n:
         if bdata[i] not in EOL:
             break
         i += 1
-    return i
+    return o0 + i
 
 
 def circular_deleted(changes: list) -> dict:
-- 
2.43.0


From 12781cbe99338dbce9cfa1d9f5c3c20001ec653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:29 +0000
Subject: [PATCH 31/84] fix: the destination file stayed open after a failed
 save

---
 pdfsyntax/api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index c42b01f..e168cef 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -121,9 +121,8 @@ def writefile(doc: Doc, filename: str = None) -> Doc:
         bdata += fragment
         idx += len(fragment)
     if filename:
-        bfile = open(filename, 'wb')
-        bfile.write(bdata)
-        bfile.close()
+        with open(filename, 'wb') as bfile:
+            bfile.write(bdata)
     else:
         sys.stdout.buffer.write(bdata)
         sys.stdout.buffer.flush()
-- 
2.43.0


From 92989e6aa5a1a43a6241e7ee4f41082df8375391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:30 +0000
Subject: [PATCH 32/84] fix: documents saved to unbuffered standard output
 could be truncated silently

---
 pdfsyntax/api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index e168cef..bbd1568 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -124,7 +124,12 @@ def writefile(doc: Doc, filename: str = None) -> Doc:
         with open(filename, 'wb') as bfile:
             bfile.write(bdata)
     else:
-        sys.stdout.buffer.write(bdata)
+        done = 0
+        while done < len(bdata): #Unbuffered output may take only a part
+            nb = sys.stdout.buffer.write(bdata[done:])
+            if not nb:
+                raise BlockingIOError(f'Only {done} bytes could be written instead of {len(bdata)}')
+            done += nb
         sys.stdout.buffer.flush()
     return doc
 
-- 
2.43.0


From 755f3537ac28a198eccb611ee68c5097a2b76bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:27 +0000
Subject: [PATCH 33/84] fix: files without their last end-of-file marker could
 not be opened

---
 pdfsyntax/filestruct.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index f647d49..684d8d1 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -278,7 +278,10 @@ def build_xref_sequence(fdata: Callable) -> tuple:
             bdata, a0, o0, _ = fdata(-100, -1)
             eof_pos = bdata.rfind(EOF, a0)
             eof_pos = o0 + eof_pos if eof_pos != -1 else bdata_length(fdata)
-            startxref_pos = o0 + bdata.rfind(STARTXREF, a0)
+            startxref_pos = bdata.rfind(STARTXREF, a0)
+            if startxref_pos == -1:
+                raise ValueError('No startxref keyword at the end of the file')
+            startxref_pos += o0
             i, j, _ = next_token(bdata, startxref_pos + len(STARTXREF) - o0)
             xref_pos = int(bdata[i:j])
             last = startxref_pos
@@ -330,6 +333,7 @@ def build_xref_sequence(fdata: Callable) -> tuple:
     idx.append(file_sz)
     #idx.append(None)
     nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1) if idx[i] < idx[i+1]}
+    nxt.setdefault(file_sz, file_sz) #End-of-file marker missing
     #nxt = {idx[i]: idx[i+1] for i in range(len(idx)-1)}
     nb = max(i['o_num'] for x in chrono for i in x)
     return chrono, nxt, nb
-- 
2.43.0


From ddc4acfdaa296b1913d218e2116eb924db41e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:36 +0000
Subject: [PATCH 34/84] fix: objects listed in the table of a hybrid file were
 ignored

---
 pdfsyntax/docstruct.py  | 8 ++++----
 pdfsyntax/filestruct.py | 6 ++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index a5b00da..103b718 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -483,10 +483,10 @@ def encrypted(doc: Doc) -> bool:
 
 def hybrid(doc: Doc) -> bool:
     """Detect if doc is hybrid."""
-    if len(doc.index) >= 2 and doc.index[1][0].get('xref_stm'):
-        return True
-    else:
-        return False
+    for index in doc.index:
+        if type(index[0]) == dict and index[0].get('xref_stm'):
+            return True
+    return False
 
 
 def catalog(doc: Doc):
diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 684d8d1..67a3d1d 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -356,6 +356,12 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             p = deepcopy(p)
             p[0]['xref_stm'] = True
             p[0]['abs_pos'] = x[0]['abs_pos']
+            p[0]['xref_table_pos'] = x[0]['xref_table_pos']
+            #Objects in use in the table come first, hidden ones are in the stream
+            used = {o['o_num'] for o in x[1:-1] if 'DELETED' not in o}
+            hidden = {o['o_num'] for o in p[1:-1]} - used
+            objs = [o for o in x[1:-1] if o['o_num'] not in hidden]
+            p[1:-1] = [o for o in p[1:-1] if o['o_num'] in hidden] + objs
             new_xref_seq[-1] = p
         else:
             new_xref_seq.append(x)
-- 
2.43.0


From 8d44ae43d71023b7b06f85fef7339e2b16131be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:49 +0000
Subject: [PATCH 35/84] fix: inherited resources, pages without contents and
 indirect page boxes broke inspection

---
 pdfsyntax/api.py       | 4 ++--
 pdfsyntax/docstruct.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index bbd1568..df4b0a1 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -183,7 +183,7 @@ def paper(mediabox: list) -> str:
 def page_layouts(doc: Doc, max_nb=None) -> list:
     """List page layouts."""
     pl = pages(doc, max_nb)
-    med = [(p['/MediaBox'], p.get('/Rotate')) for p in pl]
+    med = [(get_object(doc, p['/MediaBox']), get_object(doc, p.get('/Rotate'))) for p in pl]
     return med
 
 
@@ -339,7 +339,7 @@ def get_page_contents(doc: Doc, page_num: int) -> list:
     """List all content streams of a page."""
     ret = []
     pages = flat_page_tree(doc)
-    i_c = get_object(doc, pages[page_num][0])['/Contents']
+    i_c = get_object(doc, pages[page_num][0]).get('/Contents', [])
     if type(i_c) == complex:
         i_c = [i_c]
     for content in i_c:
diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 103b718..e6d7263 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -1010,10 +1010,10 @@ def get_page_fonts(doc: Doc, page_nums: list) -> list:
     for page_num in page_nums:
         fonts = {}
         font_res = {}
-        page_ref, _ = flat_page_tree(doc)[page_num]
-        resources = get_object(doc, page_ref)['/Resources']
+        page_ref, inherited = flat_page_tree(doc)[page_num]
+        resources = get_object(doc, page_ref).get('/Resources', inherited.get('/Resources'))
         if resources:
-            fonts = get_object(doc, resources)['/Font']
+            fonts = get_object(doc, get_object(doc, resources).get('/Font')) or {}
         for font in fonts:
             font_res[font] = prepare_font(doc, fonts[font])
         ret.append(font_res)
-- 
2.43.0


From 1920471c1dc29a3558a853a35a10bfda96ab42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:50 +0000
Subject: [PATCH 36/84] fix: content streams of a page were glued together

---
 pdfsyntax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index df4b0a1..b8736d9 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -365,7 +365,7 @@ def build_text_fragments(page_contents: list, f: list):
     ts = {}
     c_all = b''
     for c in page_contents:
-        c_all += c['stream']
+        c_all += c['stream'] + b'\n' #A token never spans two streams
     t =parse_stream_content(c_all)
     for te in t:
         if te[-1] not in 'lmchnfgGref*':
-- 
2.43.0


From 264a168527c6f4c9dd18b8b982b9d8420edda976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:32 +0000
Subject: [PATCH 37/84] fix: browse failed on files with objects that are not
 indexed

---
 pdfsyntax/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index b8736d9..41e2f02 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -468,6 +468,8 @@ def cross_map_index(sections, index):
             ret[abs_pos] = o_num, relevance, targets, []
     for abs_pos in ret:
         o_num, relevance, targets, _ = ret[abs_pos]
+        if relevance is None: #Not indexed
+            continue
         _, ver = relevance
         if ver < len(index) - 1:
             continue
-- 
2.43.0


From 07b111a9629b7f3b1ccb323bf4479812e57bcccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:54 +0000
Subject: [PATCH 38/84] fix: the last object of an object stream was left
 unparsed without trailing space

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 1597017..46cf448 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -325,7 +325,7 @@ def parse_indirect_obj(text: bytes, start=0) -> tuple:
 def parse_object_stream(obj_stream: Stream, env_num) -> tuple:
     """List objects embedded within an object stream (/ObjStm)."""
     res = []
-    data = obj_stream['stream']
+    data = obj_stream['stream'] + b'\n' #Delimit the last object
     offset = int(obj_stream['entries']['/First'])
     theorical_nb_obj = int(obj_stream['entries']['/N'])
     i = 0
-- 
2.43.0


From 9e9ba062b098a057ab92d5a5145035b890f114d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:56 +0000
Subject: [PATCH 39/84] fix: browse failed to show objects that are not indexed

---
 pdfsyntax/display.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index c85f93c..f2e720d 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -220,7 +220,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
         elif typ == 'IND_OBJ':
             page += build_obj_header(article, index, cross)
             _, relevance, _, _ = cross[abs_pos]
-            _, ver = relevance
+            ver = relevance[1] if relevance else -1 #Not indexed
             o = content['obj']
             if type(o) == Stream and '/Type' in o['entries'] and o['entries']['/Type'] == '/XRef':
                 page += follow_obj(o, index[ver], display_stream=False)
@@ -577,9 +577,12 @@ def build_obj_header(article, index, cross) -> str:
         ret += f'<pre>\n'
     elif type(pos) == int:
         _, relevance, _, used_by = cross[pos]
-        o_num, ver = relevance
-        o_gen = index[ver][o_num]['o_gen']
-        o_ver = index[ver][o_num]['o_ver']
+        if relevance:
+            o_num, ver = relevance
+            o_gen = index[ver][o_num]['o_gen']
+            o_ver = index[ver][o_num]['o_ver']
+        else: #Not indexed
+            o_num, o_gen, o_ver = obj['o_num'], obj['o_gen'], '-'
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
         ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
-- 
2.43.0


From 7b4bc6571455305ee5cc4dfa87310f1186722569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:29 +0000
Subject: [PATCH 40/84] fix: the end-of-data marker of ASCIIHex streams was
 neither written nor accepted

---
 pdfsyntax/filters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 60bbbbb..d5f9509 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -54,7 +54,8 @@ def decode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot decode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = binascii.unhexlify(s)
+                res = b''.join(s.partition(b'>')[0].split())
+                res = binascii.unhexlify(res + b'0' * (len(res) % 2))
             except MemoryError:
                 raise
             except Exception:
@@ -90,7 +91,7 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode Flate'
         elif f == '/ASCIIHexDecode':
             try:
-                res = asciihex(res)
+                res = asciihex(res) + b'>'
             except MemoryError:
                 raise
             except Exception:
-- 
2.43.0


From 50acf8ecfc02f09a6a3817a6b9e8ab960847d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:13 +0000
Subject: [PATCH 41/84] fix: ASCII85 streams were written with a start marker
 PDF does not have

---
 pdfsyntax/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index d5f9509..2cd91fd 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -98,7 +98,7 @@ def encode_stream(stream, stream_def):
                 return b'#PDFSyntaxException: cannot encode ASCIIHex'
         elif f == '/ASCII85Decode':
             try:
-                res = base64.a85encode(res, adobe=True)
+                res = base64.a85encode(res, adobe=True)[len(b'<~'):] #No start marker in PDF
             except MemoryError:
                 raise
             except Exception:
-- 
2.43.0


From 978ba6f042fa59d14ecef9e62fb6882fdab72e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:24 +0000
Subject: [PATCH 42/84] fix: edits of a file whose last update changes nothing
 were not saved

---
 pdfsyntax/docstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index e6d7263..081b1be 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -562,7 +562,7 @@ def merge_fdata(fdata: Callable, index: int, bdata: bytes):
 def commit(doc: Doc) -> Doc:
     """Add new index for incremental update."""
     chg = changes(doc)
-    if len(chg) == 0:
+    if len(chg) == 0 and 'eof_cut' not in doc.data[-1]:
         return doc
     current_index = doc.index[-1]
     nb_rev = len(doc.index)
-- 
2.43.0


From b2573fe9af8c49e2cbdc854e739b6a19a94e5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:12 +0000
Subject: [PATCH 43/84] fix: squash gives moved objects their new number in the
 index

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 081b1be..37fdde2 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -860,6 +860,7 @@ def defragment_map(current_index: list, excluded={}) -> tuple:
             nb += 1
             old_ref = complex(o['o_gen'], o['o_num'])
             new_o = deepcopy(o)
+            new_o['o_num'] = nb
             new_o['o_gen'] = 0
             new_o['o_ver'] = 0
             new_o['doc_ver'] = 0
-- 
2.43.0


From 37d799f4db53ae2ab827273864a3ce7ef60329f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:12 +0000
Subject: [PATCH 44/84] fix: commit forgets the cross-reference stream it
 replaces

---
 pdfsyntax/filestruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 67a3d1d..7ba64d0 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -635,6 +635,7 @@ def build_revision_byte_stream(
         built_xref = format_xref_stream(xref_table, cache[0], next_free, xref_stream_num)
         new_index[xref_stream_num]['abs_pos'] = counter
         new_index[xref_stream_num]['abs_next'] = counter + len(built_xref)
+        cache[xref_stream_num] = None #Any previous version is stale
         new_index[0]['xref_stream_pos'] = counter
         new_index[0]['abs_pos'] = counter
         new_index[0]['abs_next'] = counter + len(built_xref)
-- 
2.43.0


From b45937736ae0c47fb76d51cf5537a32ea8d3b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:59 +0000
Subject: [PATCH 45/84] fix: reading on demand is safe when threads share a
 document

---
 pdfsyntax/filestruct.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 7ba64d0..c77dcd5 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -5,6 +5,7 @@ from typing import IO
 from .objects import *
 import os
 import math
+import threading
 from copy import deepcopy
 from .filters import *
 
@@ -51,18 +52,20 @@ def bdata_provider(data_source, mode: str = "SINGLE"):
         return single_load
     else:
         file_obj = data_source
+        lock = threading.Lock() #Moving and reading must not be interleaved
         def continuous_load(start_pos: int, length: int) -> tuple:
-            file_obj.seek(0, os.SEEK_END)
-            file_size = file_obj.tell()
-            if start_pos == None and length == -1:
-                return (None, None, None, file_size)
-            i = (start_pos + file_size) % file_size
-            if length == -1:
-                nb_read = file_size - i
-            else:
-                nb_read = min(file_size - i, length)
-            file_obj.seek(i)
-            bdata = read_exactly(file_obj, nb_read)
+            with lock:
+                file_obj.seek(0, os.SEEK_END)
+                file_size = file_obj.tell()
+                if start_pos == None and length == -1:
+                    return (None, None, None, file_size)
+                i = (start_pos + file_size) % file_size
+                if length == -1:
+                    nb_read = file_size - i
+                else:
+                    nb_read = min(file_size - i, length)
+                file_obj.seek(i)
+                bdata = read_exactly(file_obj, nb_read)
             return (bdata, 0, i, nb_read)
         return continuous_load
 
-- 
2.43.0


From f2e6b32fc1c7a89410d05d8367a5555b2b8e7f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:29 +0000
Subject: [PATCH 46/84] fix: a linearized revision ends after its last part

---
 pdfsyntax/filestruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index c77dcd5..c42d573 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -378,6 +378,8 @@ def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
             prev_pos = trailer['abs_pos']
         else:
             m[0] = [m[0], trailer]
+            #Both parts of a linearized file form one revision that ends with the last part
+            x = x[:-1] + [max(x[-1], m[-1], key=lambda eof: eof['abs_pos'])]
         trailer['o_ver'] = doc_ver
         trailer['doc_ver'] = doc_ver
         for obj in x[1:]:
-- 
2.43.0


From c2d00a337f857a5027c338e7c02cdd7dd8668505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:32 +0000
Subject: [PATCH 47/84] fix: apply_filter leaves unfiltered streams without
 /Filter

---
 pdfsyntax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 41e2f02..fd811d0 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -233,8 +233,8 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
         entries = deepcopy(entries)
         if '/DecodeParms' in entries:
             del entries['/DecodeParms']
-        if '/Filter' in entries and flt == '':
-            del entries['/Filter']
+        if flt == '':
+            entries.pop('/Filter', None)
         else:
             entries['/Filter'] = flt
         s, length = forge_stream(entries, o['stream'])
-- 
2.43.0


From 4c964f6287b008866967e2dd08b940e5c03aaf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:38 +0000
Subject: [PATCH 48/84] fix: annotation text outside ASCII made every later
 save fail

---
 pdfsyntax/api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index fd811d0..0fbe67d 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -244,13 +244,18 @@ def apply_filter(doc: Doc, streams: list, flt: str = '/FlateDecode') -> Doc:
 
 def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened: bool = False) -> Doc:
     """Add simple text annotation."""
+    raw_text = text
     for c, escaped in ('\\', '\\\\'), ('(', '\\('), (')', '\\)'), ('\r', '\\r'):
         text = text.replace(c, escaped)
+    if not text.isascii():
+        contents = '<' + ('\ufeff' + raw_text).encode('utf-16-be').hex().upper() + '>'
+    else:
+        contents = f"({text})"
     annot = {
         '/Type': '/Annot',
         '/Subtype': '/Text',
         '/Rect': rect,
-        '/Contents': f"({text})",
+        '/Contents': contents,
         '/Open': opened,
     }
     doc, a_iref = add_object(doc, annot)
-- 
2.43.0


From 631027ccd0ecd3afe3f30537f69ba752b6582aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:42 +0000
Subject: [PATCH 49/84] fix: the xref stream of a revision reached by rewind
 was written twice after its streams changed

---
 pdfsyntax/docstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 37fdde2..b28372e 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -637,6 +637,8 @@ def rewind(doc: Doc) -> Doc:
     #The xref of this revision is going to be built again
     first = new_doc.index[0][0]
     x_num = (first[0] if type(first) == list else first).get('xref_stream_num')
+    if x_num:
+        current[0] = {**current[0], 'xref_stream_num': x_num}
     previous = new_doc.index[-2] if len(new_doc.index) > 1 else []
     for i in range(1, len(current)):
         o = new_doc.cache[i]
-- 
2.43.0


From 785f12288260854efb7e31bcd3d1cf2c29ca5e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:19 +0000
Subject: [PATCH 50/84] fix: stale cross-reference positions of a revision
 reached by rewind ended up in /Prev

---
 pdfsyntax/docstruct.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index b28372e..3c17c50 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -629,16 +629,13 @@ def rewind(doc: Doc) -> Doc:
     for o in objs:
         get_object(new_doc, o)
     current = new_doc.index[-1]
-    if type(current[0]) == list: #Linearized
-        x_num = current[0][0].get('xref_stream_num')
-        current[0] = {k: current[0][0][k] for k in ('o_num', 'o_gen', 'o_ver', 'doc_ver')}
-        if x_num:
-            current[0]['xref_stream_num'] = x_num
     #The xref of this revision is going to be built again
     first = new_doc.index[0][0]
     x_num = (first[0] if type(first) == list else first).get('xref_stream_num')
+    last = current[0][0] if type(current[0]) == list else current[0] #Linearized
+    current[0] = {k: last[k] for k in ('o_num', 'o_gen', 'o_ver', 'doc_ver')}
     if x_num:
-        current[0] = {**current[0], 'xref_stream_num': x_num}
+        current[0]['xref_stream_num'] = x_num
     previous = new_doc.index[-2] if len(new_doc.index) > 1 else []
     for i in range(1, len(current)):
         o = new_doc.cache[i]
-- 
2.43.0


From d915d10fc960ab14e3792992a45569a4ef076903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:00 +0000
Subject: [PATCH 51/84] fix: removing pages deleted objects that kept pages
 inherit or the catalog uses

---
 pdfsyntax/docstruct.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 3c17c50..fd0f56e 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -776,8 +776,8 @@ def concat(doc_left: Doc, doc_right: Doc, target_left: bool = True) -> Doc:
     return new_doc
 
 
-def dependencies(doc: Doc, obj: Any) -> set:
-    """List indirect references found inside object and inside its targets.""" 
+def dependencies(doc: Doc, obj: Any, excluded: set = frozenset()) -> set:
+    """List indirect references found inside object and inside its targets, except through excluded ones.""" 
     res = set()
     todo = [obj]
     while todo:
@@ -788,7 +788,7 @@ def dependencies(doc: Doc, obj: Any) -> set:
             todo.extend(v for k, v in o.items() if k != '/Parent' and k != '/P')
         elif type(o) == list:
             todo.extend(o)
-        elif type(o) == complex and o not in res:
+        elif type(o) == complex and o not in res and o not in excluded:
             res.add(o)
             todo.append(get_object(doc, o))
     return res
@@ -818,6 +818,8 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
         del_dep = del_dep | dependencies(new_doc, i)
     for i in keep_ref:
         keep_dep = keep_dep | dependencies(new_doc, i)
+    #Including what is used by the rest of the doc and what is inherited by the kept pages
+    keep_dep = keep_dep | dependencies(new_doc, trailer(new_doc), del_ref)
     for ref in del_ref:
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
-- 
2.43.0


From 51f623e400f70591988be043b21422f5a58e899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:15 +0000
Subject: [PATCH 52/84] fix: annotating a page whose annotation array was
 deleted raised an error

---
 pdfsyntax/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 0fbe67d..da74804 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -261,9 +261,9 @@ def add_text_annotation(doc: Doc, page_num: int, text: str, rect: list, opened:
     doc, a_iref = add_object(doc, annot)
     page_ref, _ = flat_page_tree(doc)[page_num]
     new_page = deepcopy(get_object(doc, page_ref))
-    if '/Annots' in new_page:
-        annot_obj = new_page['/Annots']
-        new_array = deepcopy(get_object(doc, new_page['/Annots']))
+    annot_obj = new_page.get('/Annots')
+    new_array = deepcopy(get_object(doc, annot_obj)) if annot_obj else None
+    if type(new_array) == list:
         new_array.append(a_iref)
         if type(annot_obj) == complex:
             doc = update_object(doc, int(annot_obj.imag), new_array)
-- 
2.43.0


From f55b75e0332c20091c5e169d1764c2925cfd3cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:34 +0000
Subject: [PATCH 53/84] fix: a page attribute with the null value hid the
 inherited one

---
 pdfsyntax/docstruct.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index fd0f56e..21ccdb2 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -321,7 +321,7 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
         node = get_object(doc, catalog(doc)[0]['/Pages'])
     if node['/Type'] == '/Pages':
         for kid in node['/Kids']:
-            e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) is not None}
+            e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) not in (None, 'null')}
             inherited.update(e)
             accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
             if max_nb is not None and len(accu) >= max_nb:
@@ -515,7 +515,7 @@ def pages(doc: Doc, max_nb=None) -> list:
     for num, in_attr in flat_page_tree(doc, max_nb=max_nb):
         temp = deepcopy(get_object(doc, num))
         for a in in_attr:
-            if a not in temp:
+            if temp.get(a) in (None, 'null'):
                 temp[a] = in_attr[a]
         pl.append(temp)
     return pl
@@ -1013,7 +1013,9 @@ def get_page_fonts(doc: Doc, page_nums: list) -> list:
         fonts = {}
         font_res = {}
         page_ref, inherited = flat_page_tree(doc)[page_num]
-        resources = get_object(doc, page_ref).get('/Resources', inherited.get('/Resources'))
+        resources = get_object(doc, page_ref).get('/Resources')
+        if resources in (None, 'null'):
+            resources = inherited.get('/Resources')
         if resources:
             fonts = get_object(doc, get_object(doc, resources).get('/Font')) or {}
         for font in fonts:
-- 
2.43.0


From 525efab35fd7eedefbfccb9022740a881a9db161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:41 +0000
Subject: [PATCH 54/84] fix: a circular page tree was followed until the
 recursion limit

---
 pdfsyntax/docstruct.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 21ccdb2..ba3b25f 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -310,8 +310,11 @@ def obj(doc: Doc, o_num, o_gen = None):
     return get_object(doc, iref)
 
 
-def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
+def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None, path=()) -> list:
     """Recursively list the pages of a node."""
+    if num in path:
+        raise ValueError(f'Circular page tree at object {int(num.imag)}')
+    path = path + (num,)
     accu = []
     if inherited is None:
         inherited = {}
@@ -323,7 +326,7 @@ def flat_page_tree(doc: Doc, num=None, inherited=None, max_nb=None) -> list:
         for kid in node['/Kids']:
             e = {k: node.get(k) for k in INHERITABLE_ATTRS if node.get(k) not in (None, 'null')}
             inherited.update(e)
-            accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb)
+            accu = accu + flat_page_tree(doc, kid, inherited.copy(), max_nb, path)
             if max_nb is not None and len(accu) >= max_nb:
                 return accu[:max_nb]
         return accu
-- 
2.43.0


From 93d8600175ce0e0b06170887cd60dd8d8e13050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:41 +0000
Subject: [PATCH 55/84] fix: a damaged /Index or /Size of an xref stream was
 expanded without limit

---
 pdfsyntax/objects.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 46cf448..eeec1c5 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -372,8 +372,8 @@ def parse_xref_table_raw(bdata: bytes, start_pos: int=0) -> tuple:
     return (start_pos, bf, 'XREFTABLE', {'table':res, 'trailer':trailer})
 
 
-def expand_xref_index(xref_index: list) -> list:
-    """Transform index section pairs into a flat list of (object_number, subsection) tuples."""
+def expand_xref_index(xref_index: list, max_nb: int=2**23) -> list:
+    """Transform index section pairs into a flat list of at most max_nb (object_number, subsection) tuples."""
     res = []
     subsection = 0
     i = 0
@@ -381,7 +381,7 @@ def expand_xref_index(xref_index: list) -> list:
         o_num = xref_index[i]
         i += 1
         res.append((o_num, subsection))
-        for j in range(xref_index[i]-1):
+        for j in range(min(xref_index[i]-1, max_nb-len(res))):
             res.append((o_num+j+1, subsection))
         i += 1
         subsection += 1
@@ -397,7 +397,8 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
         obj_range = xref_stream['entries']['/Index']
     else:
         obj_range = [0, xref_stream['entries']['/Size']]
-    obj_nums = expand_xref_index(obj_range)
+    nb_lines = len(xref_stream['stream']) // max(1, sum(int(col) for col in cols)) + 1
+    obj_nums = expand_xref_index(obj_range, nb_lines)
     while i < len(xref_stream['stream']):
         params = []
         ppr = b''
-- 
2.43.0


From 9f7c61415817ebfe5b2f13e63323e471ec7c5f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:54 +0000
Subject: [PATCH 56/84] fix: a damaged object number made the index grow
 without limit

---
 pdfsyntax/filestruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index c42d573..0cc8419 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -10,6 +10,7 @@ from copy import deepcopy
 from .filters import *
 
 MARGIN = b'\n'
+MAX_OBJ_NUM = 8388607 #Implementation limit
 
 
 def read_exactly(file_obj, size: int) -> bytes:
@@ -344,6 +345,8 @@ def build_xref_sequence(fdata: Callable) -> tuple:
 
 def build_index_from_xref_sequence(xref_seq: list, nxt: dict, nb: int) -> list:
     """Build a multi-dimensional array where each column represents a doc update."""
+    if nb > MAX_OBJ_NUM:
+        raise ValueError(f'Object number {nb} is too big')
     nb = nb + 2
     m = nb * [None]
     abs_pos_array = nb * [0]
-- 
2.43.0


From bd5fedc7235d5d84d4b003bf307303a2ad25721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:32 +0000
Subject: [PATCH 57/84] fix: a linearized file without binary comment was not
 reported as linearized

---
 pdfsyntax/filestruct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 0cc8419..f184550 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -659,8 +659,9 @@ def linearized(fdata: Callable) -> dict:
     """ """
     HEADER = b'%PDF-X.Y'
     bdata, a0, o0, _ = fdata(len(HEADER), 1024 - len(HEADER))
-    i, j, _ = next_token(bdata, a0) #comment
-    i, j, _ = next_token(bdata, j)  #o_num
+    i, j, t = next_token(bdata, a0) #comment or o_num
+    while t == 'COMMENT':
+        i, j, t = next_token(bdata, j)
     i, j, _ = next_token(bdata, j)  #gen_num
     i, j, _ = next_token(bdata, j)  #obj keyword
     i, j, t = next_token(bdata, j)  #dict ?
-- 
2.43.0


From 80021b9f1f626b9659e09ab84e53aba597787c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:29:29 +0000
Subject: [PATCH 58/84] fix: browse: links to pages updated inside object
 streams led nowhere

---
 pdfsyntax/display.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index f2e720d..3acddef 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -601,7 +601,10 @@ def build_obj_header(article, index, cross) -> str:
     elif type(addon) == tuple:
         env_pos, pos_in_env, seq = addon
         o_num, o_gen, o_ver = obj['o_num'], 0, 0
-        _, _, _, used_by = cross[pos]
+        _, relevance, _, used_by = cross[pos]
+        if relevance:
+            _, ver = relevance
+            o_ver = index[ver][o_num]['o_ver']
         ret += f'\n'
         ret += f'<div class="block" id="idx{pos}">\n'
         ret += f'<div id="obj{o_num}.{o_gen}.{o_ver}">\n'
-- 
2.43.0


From 4207b82f9410fc7137cade5dc68182ee743f8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:39 +0000
Subject: [PATCH 59/84] fix: ranges of one-byte codes in ToUnicode maps lead to
 UTF-16 strings

---
 pdfsyntax/text.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index d7ab9c2..740585d 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -151,10 +151,7 @@ def apply_tounicode(cmap: list, string: bytes, simple: bool = False) -> tuple:
                     else:
                         target = cmap[i+2][1:-1]
                         x = int(target, 16) + (token - r_a)
-                        if word_l == 2:
-                            tokens[k] = bytes.fromhex(f'{x:04X}').decode('utf-16be')
-                        else:
-                            tokens[k] = bytes.fromhex(f'{x:02X}').decode('utf-16be')
+                        tokens[k] = bytes.fromhex(f'{x:0{max(4, len(target))}X}').decode('utf-16be') #UTF-16 whatever the size of the codes
             i += 3
             continue
         if section == 'RANGE' and cmap[i] == 'endbfrange':
-- 
2.43.0


From e91ddd2b5a519e2b529fc27ad93081840588b887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:39 +0000
Subject: [PATCH 60/84] fix: octal escapes, line ends and hexadecimal strings
 are decoded as specified

---
 pdfsyntax/text.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index 740585d..b6a447e 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -40,11 +40,10 @@ def text_string(string: bytes) -> str:
             # = s.replace(b'\x5c)', b')')
             res = decode_pdfdoc(s)
     elif string[0:1] == b'<': # Hexadecimal string
-        if string[1:5] == b'FEFF':
-            b = bytes.fromhex(string[5:-1].decode('ascii'))
-            res = b.decode('utf-16be')
+        b = decode_hex_string(string[1:-1])
+        if b[:2] == b'\xfe\xff':
+            res = b[2:].decode('utf-16be')
         else:
-            b = bytes.fromhex(decode_pdfdoc(string[1:-1]))
             res = decode_pdfdoc(b)
     return res
 
@@ -67,32 +66,49 @@ def unescape_literal_string(string: bytes) -> bytes:
         first = string[i:i+1]
         second = string[i+1:i+2]
         if first == b'\x5c': # or b'\\'
-            if second in b'0123456789':
-                ret += bytes([int(string[i+1:i+4], 8)])
-                i += 3
+            if second and second in b'01234567': #1 to 3 octal digits
+                j = i + 1
+                while j < i + 4 and string[j:j+1] and string[j:j+1] in b'01234567':
+                    j += 1
+                ret += bytes([int(string[i+1:j], 8) & 0xff])
+                i = j - 1
+            elif second == b'\r' or second == b'\n': #The line continues
+                i += 2 if string[i+1:i+3] == b'\r\n' else 1
             elif second in sequences :
                 ret += sequences[second]
                 i += 1
+        elif first == b'\r': #End of line
+            ret += b'\n'
+            i += 1 if second == b'\n' else 0
         else:
             ret += first
         i += 1
     return ret
 
 
+def decode_hex_string(string: bytes) -> bytes:
+    """Decode the content of an hexadecimal string, whose last digit may be missing."""
+    digits = b''.join(string.split())
+    return bytes.fromhex((digits + b'0' * (len(digits) % 2)).decode('ascii'))
+
+
 def tokenize_string(string: bytes, word_l: int) -> list:
     """ """
     s_string = string[1:-1]
     if string[:1] == b'(':
         s_string = unescape_literal_string(s_string)
-        return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
     else:
-        return [int(s_string[j:j+word_l*2], 16) for j in range(0, len(s_string), word_l*2)]
+        s_string = decode_hex_string(s_string)
+    return [int.from_bytes(s_string[j:j+word_l], "big") for j in range(0, len(s_string), word_l)]
 
 
 def apply_encoding(encoding: str, string: bytes) -> tuple:
     """ """
     s = string[1:-1]
-    s = unescape_literal_string(s)
+    if string[:1] == b'<':
+        s = decode_hex_string(s)
+    else:
+        s = unescape_literal_string(s)
     if encoding == '/MacRomanEncoding':
         us = s.decode('mac_roman')
     else:
-- 
2.43.0


From 63ababa6d14f0a871290a87d5a92ac037adbb2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:39 +0000
Subject: [PATCH 61/84] fix: a font with several names on a page is listed once
 for the page

---
 pdfsyntax/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index da74804..9b29e61 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -313,7 +313,8 @@ def fonts(doc: Doc) -> dict:
                           'pages': [],
                           'to_unicode': u,
                           }
-            ret[o]['pages'].append(i)
+            if i not in ret[o]['pages']: #Several names may lead to the same font
+                ret[o]['pages'].append(i)
     return ret
 
 
-- 
2.43.0


From bd56a30d56b118d656fbd47857521256e86f6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:39 +0000
Subject: [PATCH 62/84] fix: page numbers beyond the last page are refused,
 negative ones count from the end

---
 pdfsyntax/docstruct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index ba3b25f..7b0d762 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -30,8 +30,7 @@ class Doc(Doc):
         """Return immutable slice of pages with the square brackets syntax."""
         n = number_pages(self)
         if type(key) == int:
-            page = key % n
-            pages = {page}
+            pages = {range(n)[key]} #IndexError beyond the last page, like a list
         elif type(key) == slice:
             start, stop, step = key.indices(n)
             pages = set(range(start, stop, step))
@@ -813,6 +812,7 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     if type(del_pages) != set:
         del_pages = {del_pages}
     pages = flat_page_tree(new_doc)
+    pages = {range(n)[p] for p in pages} #Negative numbers count from the last page
     del_ref = {pages[p][0] for p in del_pages}
     keep_ref = {p[0] for p in pages} - del_ref
     del_dep = set()
@@ -824,6 +824,7 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     #Including what is used by the rest of the doc and what is inherited by the kept pages
     keep_dep = keep_dep | dependencies(new_doc, trailer(new_doc), del_ref)
     for ref in del_ref:
+    del_pages = {range(len(pages))[p] for p in del_pages}
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
         kids = new_parent['/Kids']
-- 
2.43.0


From 93a17446db927abbba46ee7864527c14ed2825cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:39 +0000
Subject: [PATCH 63/84] fix: numbers of objects added and deleted in one
 revision are written as free

---
 pdfsyntax/docstruct.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 7b0d762..c02bf87 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -378,7 +378,7 @@ def changes(doc: Doc, rev: int=-1):
             continue
         if 'DELETED' in current[i]:
             if i > len(previous)-1 or previous[i] is None or 'DELETED' in previous[i]:
-                continue #Never existed in previous revision
+                continue #Never existed in previous revision, see short_lived
         if i > len(previous)-1:
             res.append((iref, 'a'))
         elif i < len(previous) and previous[i] == current[i]:
@@ -392,6 +392,16 @@ def changes(doc: Doc, rev: int=-1):
     return res
 
 
+def short_lived(doc: Doc):
+    """List objects added and deleted in the open revision, whose numbers must not be given to other objects."""
+    previous = doc.index[-2] if len(doc.index) > 1 else []
+    res = []
+    for i, x in enumerate(doc.index[-1]):
+        if i and x and 'DELETED' in x and (i > len(previous)-1 or previous[i] is None):
+            res.append((get_iref(doc, i), 'd'))
+    return res
+
+
 def envelopes(doc: Doc):
     """Map objects nums belonging to objects streams."""
     res = {}
@@ -566,6 +576,7 @@ def commit(doc: Doc) -> Doc:
     chg = changes(doc)
     if len(chg) == 0 and 'eof_cut' not in doc.data[-1]:
         return doc
+    chg = chg + short_lived(doc)
     current_index = doc.index[-1]
     nb_rev = len(doc.index)
     new_doc = copy_doc(doc, revision='NEXT')
@@ -801,6 +812,7 @@ def keep_pages(doc: Doc, pages) -> Doc:
     n = number_pages(doc)
     if type(pages) != set:
         pages = {pages}
+    pages = {range(n)[p] for p in pages} #Negative numbers count from the last page
     del_pages = set(range(n)) - pages
     new_doc = remove_pages(doc, del_pages)
     return new_doc
@@ -812,7 +824,7 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     if type(del_pages) != set:
         del_pages = {del_pages}
     pages = flat_page_tree(new_doc)
-    pages = {range(n)[p] for p in pages} #Negative numbers count from the last page
+    del_pages = {range(len(pages))[p] for p in del_pages}
     del_ref = {pages[p][0] for p in del_pages}
     keep_ref = {p[0] for p in pages} - del_ref
     del_dep = set()
@@ -824,7 +836,6 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
     #Including what is used by the rest of the doc and what is inherited by the kept pages
     keep_dep = keep_dep | dependencies(new_doc, trailer(new_doc), del_ref)
     for ref in del_ref:
-    del_pages = {range(len(pages))[p] for p in del_pages}
         parent = get_object(new_doc, ref)['/Parent']
         new_parent = get_object(new_doc, parent)
         kids = new_parent['/Kids']
-- 
2.43.0


From a24de65c9e1157e4369af4607fe185966b6dd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:39 +0000
Subject: [PATCH 64/84] fix: inspection does not swallow interruptions when
 decoding text

---
 pdfsyntax/cli.py     | 2 +-
 pdfsyntax/display.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index 99b327f..e026a34 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -217,7 +217,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
             else:
                 try:
                     detail = content[:10].decode('ascii')
-                except:
+                except UnicodeDecodeError:
                     detail = '<' + content[:10].hex() + '>'
             l = {'macro_ind': '+', 'pos': pos, 'size': size,
                  'region_type': region_type.lower(), 'detail': detail
diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 3acddef..a0c4ac1 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -392,7 +392,7 @@ def add_comment(article: dict) -> str:
     pos, _, _, comment = article
     try:
         detail = comment[:10].decode('ascii')
-    except:
+    except UnicodeDecodeError:
         detail = '&lt;' + comment.hex() + '&gt;'
     ret = ''
     ret += f'<div class="block" id="idx{pos}">\n'
-- 
2.43.0


From b7e9e9855d61b7ba6070ebb041ec422d0e9b263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:39 +0000
Subject: [PATCH 65/84] fix: comments inside dictionaries and arrays are not
 taken for structure

---
 pdfsyntax/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index eeec1c5..201d34e 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -102,7 +102,7 @@ def next_token(text: bytes, i=0) -> tuple:
                 search = "COMMENT"
             h = i
         elif search == "DICT":
-            if single == b'(':
+            if single == b'(' or single == b'%': #Delimiters are not significant there
                 _, i, _ = next_token(text, i)
                 continue
             elif double == b'<<':
@@ -160,7 +160,7 @@ def next_token(text: bytes, i=0) -> tuple:
             elif  text[i:i+9] == b'endstream':
                 return (h, i+9, 'STREAM')
         elif search == "ARRAY":
-            if single == b'(':
+            if single == b'(' or single == b'%':
                 _, i, _ = next_token(text, i)
                 continue
             elif single == b'[':
-- 
2.43.0


From ea29e9b055001726cb2c6cafddb694ad0643fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:39 +0000
Subject: [PATCH 66/84] fix: all PNG and TIFF predictors are decoded

---
 pdfsyntax/filters.py | 60 ++++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/pdfsyntax/filters.py b/pdfsyntax/filters.py
index 2cd91fd..b379e62 100644
--- a/pdfsyntax/filters.py
+++ b/pdfsyntax/filters.py
@@ -6,21 +6,47 @@ import base64
 
 DECODED_FILTERS = '/FlateDecode /ASCIIHexDecode /ASCII85Decode'.split()
 
-def decode_predictor(bdata: bytes, predictor, columns): #TODO handle more PNG predictors
-    """ """
-    size = len(bdata)
-    res = b''
-    columns += 1
-    prev_row = [0] * columns
-    i = 0
-    while i < size:
-        row = list(bdata[i:i+columns])
-        # Predictor 12, PNG Up
-        decoded_row = [(val + prev_row[index]) & 0xff for (index, val) in enumerate(row)]
-        prev_row = decoded_row
-        res += bytes(decoded_row[1:])
-        i += columns
-    return res
+def paeth(left: int, up: int, upper_left: int) -> int:
+    """Choose the neighbour nearest to left + up - upper_left."""
+    p = left + up - upper_left
+    p_left, p_up, p_upper_left = abs(p - left), abs(p - up), abs(p - upper_left)
+    if p_left <= p_up and p_left <= p_upper_left:
+        return left
+    return up if p_up <= p_upper_left else upper_left
+
+
+def decode_predictor(bdata: bytes, predictor, columns, colors=1, bits=8):
+    """Reverse the prediction that was applied before compression."""
+    res = bytearray()
+    pixel = max(1, colors * bits // 8) #in bytes
+    columns = (columns * colors * bits + 7) // 8
+    if predictor == 2: #TIFF
+        if bits != 8:
+            raise NotImplementedError('TIFF predictor')
+        for i in range(0, len(bdata), columns):
+            row = bytearray(bdata[i:i+columns])
+            for j in range(pixel, len(row)):
+                row[j] = (row[j] + row[j-pixel]) & 0xff
+            res += row
+        return bytes(res)
+    prev_row = bytearray(max(0, min(columns, len(bdata))))
+    for i in range(0, len(bdata), columns + 1): #Each row starts with the PNG algorithm
+        algo = bdata[i]
+        row = bytearray(bdata[i+1:i+1+columns])
+        for j in range(len(row)):
+            left = row[j-pixel] if j >= pixel else 0
+            up = prev_row[j]
+            if algo == 1:
+                row[j] = (row[j] + left) & 0xff
+            elif algo == 2:
+                row[j] = (row[j] + up) & 0xff
+            elif algo == 3:
+                row[j] = (row[j] + (left + up) // 2) & 0xff
+            elif algo == 4:
+                row[j] = (row[j] + paeth(left, up, prev_row[j-pixel] if j >= pixel else 0)) & 0xff
+        prev_row = row
+        res += row
+    return bytes(res)
 
 
 def decode_stream(stream, stream_def):
@@ -47,7 +73,9 @@ def decode_stream(stream, stream_def):
                 if type(parms[i]) == dict and parms[i].get('/Predictor', 1) != 1:
                     predictor = int(parms[i]['/Predictor'])
                     columns = int(parms[i].get('/Columns', 1))
-                    res = decode_predictor(res, predictor, columns)
+                    colors = int(parms[i].get('/Colors', 1))
+                    bits = int(parms[i].get('/BitsPerComponent', 8))
+                    res = decode_predictor(res, predictor, columns, colors, bits)
             except MemoryError:
                 raise
             except Exception:
-- 
2.43.0


From 8531bf4de9165eacddd5109c617b46f3d830955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:39 +0000
Subject: [PATCH 67/84] fix: the generation of a free entry is kept when it is
 written again

---
 pdfsyntax/filestruct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index f184550..9a953a6 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -193,7 +193,8 @@ def parse_xref_table(bdata: bytes, start_pos: int, general_offset: int) -> list:
             offset, o_num, o_gen, keyword = line
             if keyword == b'f':
                 if o_num != 0:
-                    xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
+                    # A free entry holds the next generation of the object
+                    xref.append({'o_num': o_num, 'o_gen': max(0, o_gen - 1), 'DELETED': True})
             elif o_num != 0:
                 xref.append({'abs_pos': offset, 'o_num': o_num, 'o_gen': o_gen})
             table.append((f"{offset:010d} {o_gen:05d} {keyword.decode('ascii')} ".encode('ascii'), o_num))
@@ -234,7 +235,8 @@ def parse_xref_stream(xref_stream: dict, trailer_pos: int, o_num: int) -> list:
             table.append((raw_line, o_num))
             continue
         if keyword == b'f':
-            xref.append({'o_num': o_num, 'o_gen': o_gen, 'DELETED': True})
+            # A free entry holds the next generation of the object
+            xref.append({'o_num': o_num, 'o_gen': max(0, o_gen - 1), 'DELETED': True})
             continue
         if env_iref:
             #float_pos = envs[env_iref] + (offset + 1) / 10000
-- 
2.43.0


From 391b7f1e5feb9176226f96439bb150a4da3e7c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:13:55 +0000
Subject: [PATCH 68/84] fix: text shown with the operators ' and " is extracted

---
 pdfsyntax/api.py  | 2 +-
 pdfsyntax/text.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/api.py b/pdfsyntax/api.py
index 9b29e61..18e7702 100644
--- a/pdfsyntax/api.py
+++ b/pdfsyntax/api.py
@@ -379,7 +379,7 @@ def build_text_fragments(page_contents: list, f: list):
              pass
         apply_command(te, gs, ts)
         #print(ts['tm'])
-        if te[-1] == 'TJ' or te[-1] == 'Tj':
+        if te[-1] in ('TJ', 'Tj', "'", '"'):
             old_trm = trm(ts, gs)
             #print(f"TRM ====> {old_trm}")
             uc, displacement = text_element_to_unicode(f[0], te, ts)
diff --git a/pdfsyntax/text.py b/pdfsyntax/text.py
index b6a447e..6df65b1 100644
--- a/pdfsyntax/text.py
+++ b/pdfsyntax/text.py
@@ -188,7 +188,7 @@ def text_element_to_unicode(fonts: dict, element: list, ts: dict) -> tuple:
     font = ts['Tf']
     ustring = ''
     width = 0
-    if element[-1] == 'Tj':
+    if element[-1] in ('Tj', "'", '"'):
             t = element[-2]
             us, chars = fonts[font]['dec_fun'](t)
             ustring += us
-- 
2.43.0


From 9291560cfb45b2b0d04752e7891d59fbc33c1285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:44 +0000
Subject: [PATCH 69/84] fix: the content operators ' and " are not skipped

---
 pdfsyntax/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index 201d34e..d7452dd 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -92,7 +92,7 @@ def next_token(text: bytes, i=0) -> tuple:
                 i += offset
             elif single in b"+-.0123456789":
                 search = "VALUE"
-            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ":
+            elif single in b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'\"":
                 search = "KEYWORD"
             elif single in b"(":
                 search = "LSTRING"
-- 
2.43.0


From f665b00da0ab4039bc1a7a8346833321a7a8d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:14:45 +0000
Subject: [PATCH 70/84] fix: text extraction fails on pages with lone
 characters, turned or empty text

---
 pdfsyntax/layout.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pdfsyntax/layout.py b/pdfsyntax/layout.py
index 0654969..5166871 100644
--- a/pdfsyntax/layout.py
+++ b/pdfsyntax/layout.py
@@ -11,9 +11,9 @@ def basic_spatial_layout(text_blocks: list) -> str:
     text_blocks.sort(key=lambda tb: -tb['y'])
     min_x = minimum_x(text_blocks)
     fs = typical_font_size(text_blocks)
-    spacing = typical_line_spacing(text_blocks, fs)
+    spacing = typical_line_spacing(text_blocks, fs) or 1 #Turned or empty text
     #print(f"spacing = {spacing}")
-    char_w = typical_char_width(text_blocks, fs)
+    char_w = typical_char_width(text_blocks, fs) or 1
     #print(f"char w = {char_w}")
     previous_y = -1
     while text_blocks:
@@ -123,15 +123,15 @@ def typical_line_spacing(text_blocks: list, typical_font_size: float) -> float:
 
 def typical_char_width(text_blocks: list, typical_font_size: float) -> float:
     """ """
-    distrib = []
-    for i in text_blocks:
-        if i['scaling'] != typical_font_size or len(i['text']) < 2:
-            continue
-        distrib.append(i['width'] / len(i['text']))
-    if len(distrib):
-        return sum(distrib) / len(distrib)
-    else:
-        return 0
+    for min_char in 2, 1: #Lone characters only if there is nothing else
+        distrib = []
+        for i in text_blocks:
+            if i['scaling'] != typical_font_size or len(i['text']) < min_char:
+                continue
+            distrib.append(i['width'] / len(i['text']))
+        if len(distrib):
+            return sum(distrib) / len(distrib)
+    return 0
 
 
 def print_debug(text_blocks: list):
-- 
2.43.0


From bdfb813bcc6630b6b836130421d37fe38b5dba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:23:24 +0000
Subject: [PATCH 71/84] fix: browse: /Prev references of outline items are
 broken links

---
 pdfsyntax/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index a0c4ac1..8eda765 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -507,7 +507,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
                 ret += f'  <span class="warning">{name:{NAME_MAX_WIDTH}}</span>{value}\n'
             elif value == '/JavaScript':
                 ret += f'  {name:{NAME_MAX_WIDTH}}<span class="warning">{value}</span>\n'
-            elif name == '/Prev':
+            elif name == '/Prev' and type(obj[i]) == int:
                 ret += f'  {name:{NAME_MAX_WIDTH}}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
                 ret += f'  {name:{NAME_MAX_WIDTH}}{value}\n'
-- 
2.43.0


From d8c104a76e4fe6bbe8e0007a4fe7c974dcaa6bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:33 +0000
Subject: [PATCH 72/84] fix: a cut offset after startxref is not followed

---
 pdfsyntax/filestruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 9a953a6..1b2f2cb 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -289,6 +289,8 @@ def build_xref_sequence(fdata: Callable) -> tuple:
                 raise ValueError('No startxref keyword at the end of the file')
             startxref_pos += o0
             i, j, _ = next_token(bdata, startxref_pos + len(STARTXREF) - o0)
+            if bdata[j:j+1] not in (b'\n', b'\r', b' ', b'\t', b'\f', b'%'):
+                raise ValueError('The offset after the startxref keyword is cut')
             xref_pos = int(bdata[i:j])
             last = startxref_pos
         elif xrefstm:
-- 
2.43.0


From bf76f74798cb16fbb4e416cd1b959b38da864aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:29 +0000
Subject: [PATCH 73/84] fix: a comment that ends the text is not recognised

---
 pdfsyntax/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index d7452dd..c94f0a0 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -170,6 +170,8 @@ def next_token(text: bytes, i=0) -> tuple:
             if nested == 0:
                 return (h, i + 1, 'ARRAY')
         i += 1
+    if search == "COMMENT": #The end of the text ends a comment too
+        return (h, i, 'COMMENT')
     return (h, i, None)
 
 
-- 
2.43.0


From 0dde624c886e47e025b63b577f8f4c6f997acff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:40 +0000
Subject: [PATCH 74/84] fix: browse: links of compressed objects lead to
 another version of the object

---
 pdfsyntax/display.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 8eda765..4ae4e43 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -235,7 +235,7 @@ def build_html(articles: list, index: list, cross: dict, filename: str, pages: l
             page += follow_obj(content['trailer'], index[ver])
             page += build_obj_trailer()
         elif typ == 'XREFSTREAM':
-            page += build_xref_stream(content['table'], index)
+            page += build_xref_stream(content['table'], index[ver])
             page += '\n\nendobj'
             page += build_obj_trailer()
     page += build_header(filename)
@@ -449,9 +449,9 @@ def build_xref_stream(table: list, index: list) -> str:
         _, pos, o_num, o_gen, st, env_num, raw_line = y
         if o_num != 0:
             if env_num:
-                #abs_pos = envs[env_num] + (pos + 1) / 10000
-                #ret += f'<a href="#idx{abs_pos}">'
-                ret += f'<a href="#obj{o_num}.{o_gen}.0">'
+                env = index[env_num] if env_num < len(index) else None
+                abs_pos = env['abs_pos'] + (pos + 1) / 10000 if env and 'abs_pos' in env else 0
+                ret += f'<a href="#idx{abs_pos}">'
             else:
                 ret += f'<a href="#idx{pos}">'
             ret += f'<span class="obj-link">#{o_num} {o_gen}</span>'
-- 
2.43.0


From fa05fa02090455ddfe71031dcb7e899a94e1116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:41 +0000
Subject: [PATCH 75/84] fix: browse: comments, types, keys and stream contents
 are not escaped

---
 pdfsyntax/display.py  | 6 +++---
 pdfsyntax/graphics.py | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 4ae4e43..1bcc468 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -291,7 +291,7 @@ def build_nav_objects(articles) -> str:
                 c = c['entries']
             t = c.get("/Type", "")
         ret += '<li>'
-        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {t}'
+        ret += f'<a class="nav-idx" href="#idx{pos}">{q}</a> {html.escape(str(t))}'
         ret += '</li>\n'
     ret += '</ul>\n'
     ret += '</pre>\n'
@@ -391,7 +391,7 @@ def add_comment(article: dict) -> str:
     """ """
     pos, _, _, comment = article
     try:
-        detail = comment[:10].decode('ascii')
+        detail = html.escape(comment[:10].decode('ascii'))
     except UnicodeDecodeError:
         detail = '&lt;' + comment.hex() + '&gt;'
     ret = ''
@@ -498,7 +498,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
         keys = move_list_item(keys, '/Type', 0)
         keys = move_list_item(keys, '/Subtype', 1)
         for i in keys:
-            name = i #name = i.decode('ascii')
+            name = html.escape(i)
             value = follow_obj(obj[i], index, depth + 1)
             ret += ' ' * (NAME_MAX_WIDTH + 2) * depth
             if name == '/Type' or name == '/Subtype':
diff --git a/pdfsyntax/graphics.py b/pdfsyntax/graphics.py
index c1276db..7c53040 100644
--- a/pdfsyntax/graphics.py
+++ b/pdfsyntax/graphics.py
@@ -144,6 +144,7 @@ def printable_stream_content(content_stream: bytes, escape = True) -> str:
             return None
     ret = c.decode('latin-1')
     if escape:
+        ret = ret.replace('&', '&amp;')
         ret = ret.replace('<', '&lt;')
         ret = ret.replace('>', '&gt;')
     return ret
-- 
2.43.0


From 843f688dab1fc60a54dbb5da69f74586fffb30ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:45:42 +0000
Subject: [PATCH 76/84] fix: removing a page fails when it holds a reference to
 a missing object

---
 pdfsyntax/docstruct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index c02bf87..8ec015d 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -847,8 +847,10 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
             new_parent = get_object(new_doc, p)
             new_parent['/Count'] = new_parent['/Count'] - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
-    for ref in del_dep - keep_dep:
-        new_doc = update_object(new_doc, int(ref.imag), None, immut=False)
+    nums = {int(ref.imag) for ref in in_use(new_doc)} #References may also lead to no object
+    nums = nums & {int(ref.imag) for ref in del_dep} - {int(ref.imag) for ref in keep_dep}
+    for num in nums:
+        new_doc = update_object(new_doc, num, None, immut=False)
     return new_doc
 
 
-- 
2.43.0


From 792201b5e3a3e89139c48950898d0c5de765e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:42:02 +0000
Subject: [PATCH 77/84] fix: browse: cutting a long array breaks the markup of
 the page

---
 pdfsyntax/display.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 1bcc468..685140c 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -526,11 +526,13 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
             ret += f'endstream\n'
     elif type(obj) == list:
         ret += '[ '
-        for i in obj:
-            value = follow_obj(i, index)
-            ret += f'{value} '
-        if len(ret) > VALUE_MAX_WIDTH and 'href' not in ret:
-            ret = ret[:VALUE_MAX_WIDTH] + TRUNCATED
+        values = [follow_obj(i, index) + ' ' for i in obj]
+        whole = 'href' in ''.join(values)
+        for value in values:
+            if len(ret) + len(value) > VALUE_MAX_WIDTH and not whole: #Not cutting through markup
+                ret += TRUNCATED
+                break
+            ret += value
         ret += ']'        
     else:
         comment = False
-- 
2.43.0


From ec87f21c90a66da4f8584f72e375722efa708ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:42:03 +0000
Subject: [PATCH 78/84] fix: entries of a cross-reference stream without a type
 field are taken for free ones

---
 pdfsyntax/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdfsyntax/objects.py b/pdfsyntax/objects.py
index c94f0a0..3c865c8 100644
--- a/pdfsyntax/objects.py
+++ b/pdfsyntax/objects.py
@@ -405,10 +405,11 @@ def parse_xref_stream_raw(xref_stream: Stream, start_pos=None) -> tuple:
         params = []
         ppr = b''
         obj_num, subsection = obj_nums.pop(0)
-        for col in cols:
+        for nb, col in enumerate(cols):
             x = xref_stream['stream'][i:i+int(col)]
             #struct.unpack cannot work with 3-byte words
-            params.append(int.from_bytes(x, byteorder='big'))
+            #The type of an entry is 1 when its field has no bytes
+            params.append(int.from_bytes(x, byteorder='big') if nb or int(col) else 1)
             i += int(col)
             ppr += asciihex(x) + b' '
         if params[0] == 0:
-- 
2.43.0


From 578c1c6356b34356cbb97b084ca808dd27316610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:07:46 +0000
Subject: [PATCH 79/84] fix: disasm: objects of an object stream that are not
 indexed are looked up under the wrong key

---
 pdfsyntax/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index e026a34..c397156 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -199,7 +199,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
     i, d, n = build_xref_sequence(fdata)
     wrong_targets = check_index_targets(sections, i)
     dir_not_indexed = {x for t, _, _, x in check_not_indexed_objects(sections, i) if t == 'DIR'}
-    emb_not_indexed = {(e, n) for t, n, e, _ in check_not_indexed_objects(sections, i) if t == 'EMB'}
+    emb_not_indexed = {(e, s) for t, _, e, s in check_not_indexed_objects(sections, i) if t == 'EMB'}
     lines = []
     for start_pos, end_pos, region_type, content in sections:
         pos = start_pos
-- 
2.43.0


From 5a1a97b9cf8981c870a3951adfc8a5325c8ec801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:07:47 +0000
Subject: [PATCH 80/84] fix: disasm: valid entries are marked as wrong when a
 wrong one has the same address

---
 pdfsyntax/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pdfsyntax/cli.py b/pdfsyntax/cli.py
index c397156..960c6fb 100644
--- a/pdfsyntax/cli.py
+++ b/pdfsyntax/cli.py
@@ -241,7 +241,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                  }
             lines.append(l)
             if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
+                wt = {(n, x) for _, n, _, x in wrong_targets[pos]}
             else:
                 wt = set()
             for x in content['table']:
@@ -258,7 +258,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                if (x_num, addr) in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'region_type': region_type.lower(),
                      'iref': iref, 'addr': addr, 'cl': cl, 'st': st
@@ -314,7 +314,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
         elif region_type == 'XREFSTREAM':
             trailer = content['trailer']
             if pos in wrong_targets:
-                wt = {x for _, _, _, x in wrong_targets[pos]}
+                wt = {(n, x) for _, n, _, x in wrong_targets[pos]}
             else:
                 wt = set()
             for x in content['table']:
@@ -331,7 +331,7 @@ def dump_disasm(filename: str, columns_mode: str = 'VARIABLE') -> str:
                 ratio = ''
                 region_type = 'xref'
                 detail = ''
-                if addr in wt:
+                if (x_num, addr) in wt:
                     st = '-?'
                 l = {'macro_ind': '-', 'pos': pos,
                      'region_type': region_type.lower(), 'iref': iref,
-- 
2.43.0


From b1fbb49b65f93a9460e711274a2855420716d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:20:13 +0000
Subject: [PATCH 81/84] fix: removing a page of a circular page tree never ends

---
 pdfsyntax/docstruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index 8ec015d..dbc5917 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -842,8 +842,12 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
         kids.remove(ref)
         new_parent['/Count'] = new_parent['/Count'] - 1
         new_doc = update_object(new_doc, int(parent.imag), new_parent, immut=False)
+        ancestors = {parent}
         while '/Parent' in new_parent:
             p = new_parent['/Parent']
+            if p in ancestors:
+                raise ValueError(f'Circular page tree at object {int(p.imag)}')
+            ancestors.add(p)
             new_parent = get_object(new_doc, p)
             new_parent['/Count'] = new_parent['/Count'] - 1
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
-- 
2.43.0


From ecd50e71382e636746ea6c133a59e1616ce2d642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 82/84] fix: removing pages never deletes the object streams
 that hold other objects

---
 pdfsyntax/docstruct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pdfsyntax/docstruct.py b/pdfsyntax/docstruct.py
index dbc5917..5a51a88 100644
--- a/pdfsyntax/docstruct.py
+++ b/pdfsyntax/docstruct.py
@@ -853,6 +853,7 @@ def remove_pages(doc: Doc, del_pages) -> Doc:
             new_doc = update_object(new_doc, int(p.imag), new_parent, immut=False)
     nums = {int(ref.imag) for ref in in_use(new_doc)} #References may also lead to no object
     nums = nums & {int(ref.imag) for ref in del_dep} - {int(ref.imag) for ref in keep_dep}
+    nums = nums - envelope_objects(new_doc) #Other objects are stored there
     for num in nums:
         new_doc = update_object(new_doc, num, None, immut=False)
     return new_doc
-- 
2.43.0


From d0b7ba12ecc21b568e10d8483652397fc8bbd9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 83/84] fix: object numbers beyond 65535 fit in cross-reference
 streams

---
 pdfsyntax/filestruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdfsyntax/filestruct.py b/pdfsyntax/filestruct.py
index 1b2f2cb..749b351 100644
--- a/pdfsyntax/filestruct.py
+++ b/pdfsyntax/filestruct.py
@@ -494,7 +494,8 @@ def format_xref_stream(elems: list, trailer: dict, next_free: dict, o_num: int)
     trailer['/Type'] = '/XRef'
     trailer['/Length'] = -1
     max_counter = max([e[3] for e in elems if e[3] is not None])
-    b = max(2, (max_counter.bit_length() + 7) // 8) #At least 2 for generation number 65535
+    max_num = max([e[4] or 0 for e in elems] + list(next_free.values()))
+    b = max(2, (max(max_counter, max_num).bit_length() + 7) // 8) #At least 2 for generation number 65535
     trailer['/W'] = [1, b, b]
     for use, num, o_gen, counter, env_num in elems:
         if use == 'f':
-- 
2.43.0


From 0eef048f32609769fc9788834b2b7e483dfb59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 84/84] fix: browse links /Prev to a position in trailers only

---
 pdfsyntax/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdfsyntax/display.py b/pdfsyntax/display.py
index 685140c..c06e3a0 100644
--- a/pdfsyntax/display.py
+++ b/pdfsyntax/display.py
@@ -507,7 +507,7 @@ def follow_obj(obj, index: list, depth=0, display_stream=True) -> str:
                 ret += f'  <span class="warning">{name:{NAME_MAX_WIDTH}}</span>{value}\n'
             elif value == '/JavaScript':
                 ret += f'  {name:{NAME_MAX_WIDTH}}<span class="warning">{value}</span>\n'
-            elif name == '/Prev' and type(obj[i]) == int:
+            elif name == '/Prev' and type(obj[i]) == int and '/Size' in obj: #In a trailer only
                 ret += f'  {name:{NAME_MAX_WIDTH}}<a class="obj-link" href="#idx{value}">{value}</a>\n'
             else:
                 ret += f'  {name:{NAME_MAX_WIDTH}}{value}\n'
-- 
2.43.0

