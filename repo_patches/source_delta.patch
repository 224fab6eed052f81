From f2bb68e4a189c5557c36acea65fcf68a8c1d55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:11 +0000
Subject: [PATCH 01/62] fix: Codec.decode checks minf/maxf range of Number
 values, as encode does

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3ae3763..07951c8 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -213,7 +213,7 @@ def _encode_number(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_number(ts: SymbolTableField, sval, codec: 'Codec'):
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, numbers.Real, isinstance(aval, bool))
-    return _check_range(ts, aval)
+    return _check_frange(ts, aval)
 
 
 def _encode_string(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From 2bc37dd6499e5387337dabd97c3516769122bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:15 +0000
Subject: [PATCH 02/62] fix: Codec.decode rejects an anyOf Choice value that
 matches no alternative

---
 distribution/src/jadn/codec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 07951c8..3e98a35 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -306,6 +306,8 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
             raise_error(f'{td.TypeName}(allOf): {cf}/{n} invalid')
         if combine == 'X' and ct != 1:
             raise_error(f'{td.TypeName}(oneOf): {ct}/{n} valid')
+        if combine == 'O' and cf >= n:
+            raise_error(f'{td.TypeName}(anyOf): {ct}/{n} none valid')
         return v
 
     _check_type(ts, val, dict)
-- 
2.43.0


From b67574693442f7cf9515b815156fb4d5e886ebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:18 +0000
Subject: [PATCH 03/62] fix: decode of datetime-ms rounds instead of truncating
 to milliseconds

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index f19a743..c6ad0e3 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -172,7 +172,7 @@ def int2datems(dt: int) -> str:
 
 def datems2int(dts: str) -> int:
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
-    return int(1000 * datetime.timestamp(x))
+    return round(1000 * datetime.timestamp(x))
 
 
 # No special sized integer serialization in JSON.  Define these for packed encoding.
-- 
2.43.0


From 550a85df4eeab81aaa0238b7563451f520e64458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:21 +0000
Subject: [PATCH 04/62] fix: write unlisted info fields in schema order, not in
 hash order

---
 distribution/src/jadn/convert/html.py     | 2 +-
 distribution/src/jadn/convert/jidl.py     | 2 +-
 distribution/src/jadn/convert/markdown.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 6079f49..2172519 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -66,7 +66,7 @@ def html_dumps(schema: dict) -> str:
         if info := schema.get('info', None):
             with tag('div', klass='tBody'):
                 mlist = [k for k in INFO_ORDER if k in info]
-                for k in mlist + list({*info} - {*mlist}):
+                for k in mlist + [k for k in info if k not in mlist]:
                     with tag('div', klass='tRow'):
                         tag('div', f'{k}:', klass='tCell jKey')
                         tag('div', json.dumps(info[k]), klass='tCell jVal')
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 1c31e6c..ef4b9a4 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -51,7 +51,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):              # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:              # Display info elements in fixed order
         text += f'{k:>{w["info"]}}: {json.dumps(info[k])}\n'    # TODO: wrap to page width, continuation-line parser
 
     wt = w['desc'] if w['desc'] else w['id'] + w['name'] + w['type']
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 4958bd1..9ad743a 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -46,7 +46,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
     text = ''
     info = schema['info'] if 'info' in schema else {}
     mlist = [k for k in INFO_ORDER if k in info]
-    for k in mlist + list(set(info) - set(mlist)):      # Display info elements in fixed order
+    for k in mlist + [k for k in info if k not in mlist]:      # Display info elements in fixed order
         text += f'{k:>14}: {json.dumps(info[k])}\n'     # TODO: wrap to width, continuation-line parser
 
     for td in schema['types']:
-- 
2.43.0


From 681fa91b5f8bca67ac00cc8c226af93b02e7766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:24 +0000
Subject: [PATCH 05/62] fix: diagram, JSON Schema and HTML files are UTF-8
 whatever the locale

---
 distribution/src/jadn/convert/diagram_w.py      | 2 +-
 distribution/src/jadn/convert/html.py           | 2 +-
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 9ba2b80..5f3aff1 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -181,7 +181,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
 
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
-    with open(fname, 'w') as f:
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
         f.write(diagram_dumps(schema, style) + '\n')
diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 2172519..d1c06ac 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -175,7 +175,7 @@ def html_loads(hdoc: str) -> dict:
 
 
 def html_load(fname: Union[bytes, str, int]) -> dict:
-    with open(fname, 'r') as f:
+    with open(fname, 'r', encoding='utf8') as f:
         return html_loads(f.read())
 
 
diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 959d799..0725391 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -435,7 +435,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
 
 def json_schema_dump(jadn: dict, fname: Union[str, bytes, int], source=None, verbose=True, enum_style='enum', import_style='ref'):
-    with open(fname, 'w') as f:
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
         f.write(json_schema_dumps(jadn, verbose, enum_style, import_style))
-- 
2.43.0


From 961503a21bff8a455ff3338ecdf43044f5ce7b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:28 +0000
Subject: [PATCH 06/62] fix: type options keep the order of the option list,
 not hash order

---
 distribution/src/jadn/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index dd9c801..848ec78 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -150,8 +150,8 @@ def topts_s2d(olist: Union[list[OPTION_TYPES], tuple[OPTION_TYPES, ...]], frange
     Convert list of type definition option strings to options dictionary
     """
     assert isinstance(olist, (list, tuple)), f'{olist} is not a list'
-    topts = {o for o in olist if ord(o[0]) in TYPE_OPTIONS}
-    if uopts := {*olist} - topts:
+    topts = [o for o in olist if ord(o[0]) in TYPE_OPTIONS]
+    if uopts := [o for o in olist if o not in topts]:
         raise_error(f"Unknown type options: {','.join(uopts)}")
     opts = {}
     for o in topts:
-- 
2.43.0


From ec0da36f6d051b1609749f679d30b9bd9d5bb45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:31 +0000
Subject: [PATCH 07/62] fix: flag unrecognized options by name, not by object
 address

---
 distribution/src/jadn/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 848ec78..86f8448 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -366,7 +366,7 @@ def jadn2typestr(tname: str, topts: list[OPTION_TYPES]) -> str:
 
     if opts.pop('sequence', None):
         extra += ' sequence'
-    return f"{tname}{extra}{f' ?{str(map(str, opts))}?' if opts else ''}"  # Flag unrecognized options
+    return f"{tname}{extra}{f' ?{", ".join(map(str, opts))}?' if opts else ''}"  # Flag unrecognized options
 
 
 def multiplicity_str(opts: dict) -> str:
-- 
2.43.0


From 45b3ae0e899eb2e8aad487c5eca7c531bce5e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:34 +0000
Subject: [PATCH 08/62] fix: analyze lists unreferenced and undefined types in
 a fixed order

---
 distribution/src/jadn/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 55a20ab..4bd23ff 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -157,8 +157,8 @@ def analyze(schema: dict) -> dict:
     dep_refs = {v for d in items for v in items[d]}
     refs = set(dep_refs) | set(roots)
     return {
-        'unreferenced': list(defs - refs),
-        'undefined': list(refs - defs),
+        'unreferenced': sorted(defs - refs),
+        'undefined': sorted(refs - defs),
         'cycles': [],
     }
 
-- 
2.43.0


From c9d58df4a94df01cb42707d5fe10b8b7cb9edaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:38 +0000
Subject: [PATCH 09/62] fix: Codec.set_mode switches mode and symbol table
 together

---
 distribution/src/jadn/codec/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 629db22..b00184f 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -109,7 +109,7 @@ class Codec:
             if t.BaseType == 'Record':
                 symval.Encode = _encode_maprec   # if self.verbose_rec else _encode_array
                 symval.Decode = _decode_maprec   # if self.verbose_rec else _decode_array
-                symval.EncType = dict if self.verbose_rec else list
+                symval.EncType = dict if verbose_rec else list
             if t.BaseType in ('Enumerated', 'Array', 'Choice', 'Map', 'Record'):
                 fx = FieldName if 'id' not in symval.TypeOpts and t.BaseType != 'Array' and verbose_str else FieldID
                 fa = FieldName if 'id' not in symval.TypeOpts else FieldID
@@ -137,13 +137,11 @@ class Codec:
             symval.FormatDecode = get_format_decode_function(self.format_codec, t.BaseType, fmt)
             return symval
 
-        self.verbose_rec = verbose_rec
-        self.verbose_str = verbose_str
-        self.symtab = {t.TypeName: sym(t) for t in object_types(self.schema['types'])}
+        symtab = {t.TypeName: sym(t) for t in object_types(self.schema['types'])}
         if 'TypeRef' in self.types:
-            self.symtab['TypeRef'].TypeOpts = make_typeref_pattern(self.config['$NSID'], self.config['$TypeName'])
+            symtab['TypeRef'].TypeOpts = make_typeref_pattern(self.config['$NSID'], self.config['$TypeName'])
         for t in PRIMITIVE_TYPES:
-            self.symtab[t] = SymbolTableField(
+            symtab[t] = SymbolTableField(
                 TypeDef=TypeDefinition('', t),
                 Encode=enctab[t].Enc,
                 Decode=enctab[t].Dec,
@@ -154,6 +152,8 @@ class Codec:
                 FormatEncode=get_format_encode_function(self.format_codec, t[BaseType], ''),
                 FormatDecode=get_format_decode_function(self.format_codec, t[BaseType], '')
             )
+        # Switch modes only after the new symbol table is complete, so a failed switch leaves the old mode intact
+        self.verbose_rec, self.verbose_str, self.symtab = verbose_rec, verbose_str, symtab
 
 
 __all__ = ['Codec']
-- 
2.43.0


From b185b44dd0a71040a511518623a92c41f13a8057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:42 +0000
Subject: [PATCH 10/62] fix: render a schema before opening the output file

---
 distribution/src/jadn/convert/diagram_w.py      | 3 ++-
 distribution/src/jadn/convert/html.py           | 3 ++-
 distribution/src/jadn/convert/jidl.py           | 3 ++-
 distribution/src/jadn/convert/markdown.py       | 3 ++-
 distribution/src/jadn/core.py                   | 3 ++-
 distribution/src/jadn/translate/jsonschema_w.py | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 5f3aff1..d82f756 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -181,10 +181,11 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
 
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
+    doc = diagram_dumps(schema, style)     # Render before opening, so a failed conversion leaves an existing file intact
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
-        f.write(diagram_dumps(schema, style) + '\n')
+        f.write(doc + '\n')
 
 
 # Wrap typenames at word boundaries to minimize node width, using a max of "lines" lines.
diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index d1c06ac..ce54dc6 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -109,10 +109,11 @@ def html_dumps(schema: dict) -> str:
 
 
 def html_dump(schema: dict, fname: Union[bytes, str, int], source='') -> None:
+    doc = html_dumps(schema)     # Render before opening, so a failed conversion leaves an existing file intact
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'<! Generated from {source}, {datetime.ctime(datetime.now())}>\n\n')
-        f.write(html_dumps(schema))
+        f.write(doc)
 
 
 # Convert HTML to JADN
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index ef4b9a4..ebff903 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -78,10 +78,11 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
 
 
 def jidl_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None) -> None:
+    doc = jidl_dumps(schema, style)     # Render before opening, so a failed conversion leaves an existing file intact
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
-        f.write(jidl_dumps(schema, style))
+        f.write(doc)
 
 
 # Convert JIDL to JADN
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 9ad743a..73ebe5a 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -94,10 +94,11 @@ def format_table(rows: list) -> str:
 
 
 def markdown_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None) -> None:
+    doc = markdown_dumps(schema, style)     # Render before opening, so a failed conversion leaves an existing file intact
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'<!--- Generated from {source}, {datetime.ctime(datetime.now())} --->\n\n')
-        f.write(markdown_dumps(schema, style))
+        f.write(doc)
 
 
 # Convert MARKDOWN to JADN
diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 4bd23ff..c1d408b 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -213,10 +213,11 @@ def dumps(schema: dict, strip: bool = False) -> str:
 
 
 def dump(schema: dict, fname: Union[str, bytes, int], source: str = '', strip: bool = False) -> None:
+    doc = dumps(schema, strip=strip)     # Render before opening, so a failed conversion leaves an existing file intact
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'"Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
-        f.write(dumps(schema, strip=strip) + '\n')
+        f.write(doc + '\n')
 
 
 __all__ = [
diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 0725391..623c446 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -435,7 +435,8 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
 
 def json_schema_dump(jadn: dict, fname: Union[str, bytes, int], source=None, verbose=True, enum_style='enum', import_style='ref'):
+    doc = json_schema_dumps(jadn, verbose, enum_style, import_style)     # Render before opening, so a failed conversion leaves an existing file intact
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
-        f.write(json_schema_dumps(jadn, verbose, enum_style, import_style))
+        f.write(doc)
-- 
2.43.0


From dec4749d9125b40767440f0b1572d77395d286b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:44 +0000
Subject: [PATCH 11/62] fix: load_any can load HTML schemas

---
 distribution/src/jadn/convert/html.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index ce54dc6..c3fc49f 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -2,7 +2,7 @@ import re
 import json
 
 from datetime import datetime
-from typing import Generator, Tuple, Union
+from typing import Generator, TextIO, Tuple, Union
 from lxml import html
 from .utils import DocHTML
 from ..definitions import Fields, ItemID, ItemDesc, FieldID, INFO_ORDER, TypeDefinition
@@ -175,7 +175,9 @@ def html_loads(hdoc: str) -> dict:
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
-def html_load(fname: Union[bytes, str, int]) -> dict:
+def html_load(fname: Union[bytes, str, int, TextIO]) -> dict:
+    if hasattr(fname, 'read'):          # Open file, as used by jadn.load_any and the other format loaders
+        return html_loads(fname.read())
     with open(fname, 'r', encoding='utf8') as f:
         return html_loads(f.read())
 
-- 
2.43.0


From 54d2e2883658f85273d274d53d56d9e0db9edcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:47 +0000
Subject: [PATCH 12/62] fix: JIDL and HTML keep the extend type option

---
 distribution/src/jadn/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 86f8448..b16add1 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -259,7 +259,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
     p_func = r'(?:\(([^)]+)\))?'                    # 3 'ktype', 'vtype', 'enum', 'pointer', 'tagid'
     p_rangepat = r'\{(.*)\}'                        # 4 'minv', 'maxv', 'pattern'
     p_format = r'\s+\/(\w[-\w]*)'                   # 5 'format'
-    p_kw = r'\s+(unique|set|unordered|sequence)'    # 6 multiplicity
+    p_kw = r'\s+(unique|set|unordered|sequence|extend)'    # 6 multiplicity
     pattern = fr'^{p_name}{p_id}{p_func}(.*?)\s*$'
     m = re.match(pattern, typestring)
     if m is None:
@@ -366,6 +366,9 @@ def jadn2typestr(tname: str, topts: list[OPTION_TYPES]) -> str:
 
     if opts.pop('sequence', None):
         extra += ' sequence'
+
+    if opts.pop('extend', None):
+        extra += ' extend'
     return f"{tname}{extra}{f' ?{", ".join(map(str, opts))}?' if opts else ''}"  # Flag unrecognized options
 
 
-- 
2.43.0


From 5b6a84dd292a7ece51ffd38c2692bbc82ebae5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:49 +0000
Subject: [PATCH 13/62] fix: jidl_load ignores the header written by
 jidl_dump(source=...)

---
 distribution/src/jadn/convert/jidl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index ebff903..41a117d 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -87,6 +87,9 @@ def jidl_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None
 
 # Convert JIDL to JADN
 def line2jadn(line: str, tdef: list) -> tuple[str, list]:
+    if line.startswith('/*') and line.endswith('*/'):       # Ignore "Generated from" header
+        return '', []
+
     if line.split('//', maxsplit=1)[0].strip():
         p_info = r'^\s*([-\w]+):\s*(.+?)\s*$'
         if m := re.match(p_info, line):
-- 
2.43.0


From 2ad1df585ba39e1dab74e8e2dc0b68663a48e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:51 +0000
Subject: [PATCH 14/62] fix: resolve_imports no longer fails on imported types

---
 distribution/src/jadn/transform/resolve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 064f68b..eb91c26 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -17,7 +17,7 @@ class SchemaPackage:
     namespaces: dict                      # Copy of meta['namespaces'] or empty {}
     tx: dict[str, list]                   # Type index: {type name: type definition in schema}
     deps: dict[str, list[str]]             # Internal dependencies: {type1: {t2, t3}, type2: {t3, t4, t5}}
-    refs: dict[str, dict[str, list[str]]]  # External references {namespace1: {type1: {t2, t3}, ...}}
+    refs: dict[str, dict[str, set[str]]]   # External references {namespace1: {type1: {t2, t3}, ...}}
     used: set[str]                        # Types from this package that have been referenced {t2, t3}
 
     def __init__(self, source: Union[dict, TextIO]):     # Read schema data, get package name
@@ -42,7 +42,7 @@ class SchemaPackage:
         check(self.schema)
         self.tx = {t[TypeName]: t for t in self.schema['types']}
         self.deps = build_deps(self.schema)
-        self.refs = defaultdict(lambda: defaultdict(list))
+        self.refs = defaultdict(lambda: defaultdict(set))
         for tn in self.deps:
             for dn in list(self.deps[tn]):     # Iterate over copy so original can be modified safely
                 if ':' in dn:
@@ -78,7 +78,7 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
 
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
     # Options whose value is/has a type name
-    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer'], OPTION_ID['and']]
+    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
     def update_opts(opts: list[str]) -> list[str]:
         return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
-- 
2.43.0


From ad9562ed54db207c90dea16f840e1af414c1375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:09 +0000
Subject: [PATCH 15/62] fix: resolve_imports does not depend on directory
 listing order

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index eb91c26..2194bbe 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -144,7 +144,7 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
     packages = {root.package: root}
     nsids = defaultdict(list)
 
-    for fn in (os.path.join(dirname, f) for f in os.listdir(dirname) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
+    for fn in (os.path.join(dirname, f) for f in sorted(os.listdir(dirname)) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
         with open(fn, 'r', encoding='utf-8') as fp:
             sm = SchemaPackage(fp)
         if sm.package not in packages:            # Add new package to list
-- 
2.43.0


From 503b69b28c0e4efe097e29a7daaf215004a3ea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:52 +0000
Subject: [PATCH 16/62] fix: Map.ID values can be encoded and decoded in the
 verbose string modes

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3e98a35..365d5f8 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -327,7 +327,7 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_size(ts, aval)
     sval = ts.EncType()
     assert isinstance(sval, (list, dict))
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID  # Verbose or minified identifiers
     fnames = [f.Def.FieldName for f in ts.Fld.values()]
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
@@ -362,7 +362,7 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
     aval = dict()
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID  # Verbose or minified identifiers
     fnames = list(ts.Fld)
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
-- 
2.43.0


From 0fad347440d5d76734b79c4bf4fe4499b78fd13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:55 +0000
Subject: [PATCH 17/62] fix: Codec.decode validates and converts MapOf keys, as
 encode does

---
 distribution/src/jadn/codec/codec.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 365d5f8..5b15495 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -477,7 +477,15 @@ def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, dict)
     _check_size(ts, sval)
-    return {k: codec.decode(ts.TypeOpts['vtype'], v) for k, v in sval.items()}
+    to = ts.TypeOpts
+
+    def key(k):     # JSON object keys are always strings
+        try:
+            return int(k) if isinstance(k, str) and issubclass(codec.symtab[to['ktype']].EncType, int) else k
+        except ValueError:
+            return k
+
+    return {codec.decode(to['ktype'], key(k)): codec.decode(to['vtype'], v) for k, v in sval.items()}
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From ad457cf1235c7d45caf700dd61db342b6d02dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:59 +0000
Subject: [PATCH 18/62] fix: tagid fields decode in every mode and report a
 missing tag as a validation error

---
 distribution/src/jadn/codec/codec.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 5b15495..fa5f670 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -335,7 +335,9 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
         fname = fd[FieldName]  # Field name
         fopts = fs.Opt  # Field options dict
         ctag = fs.cTag
-        if ctag is not None:  # Type of this field is specified by contents of another field
+        if ctag is not None and fname in aval:  # Type of this field is specified by contents of another field
+            if ctag not in aval:
+                raise_error(f'{ts.TypeDef.TypeName}/{fname}: missing tag field "{ctag}": {aval}')
             e = codec.encode(fd.FieldType, {aval[ctag]: aval[fname]})
             sv = next(iter(e.values()))
         else:
@@ -377,8 +379,12 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         if sv is not None:
             ctag = fs.cTag
             if ctag is not None:  # Type of this field is specified by contents of another field
-                ct = ctag if isinstance(val, dict) else ts.eMap[ctag] - 1
-                av = codec.decode(fd.FieldType, {sval[ct]: sv})
+                ct = ts.eMap[ctag]
+                if isinstance(val, list):
+                    ct = ts.Fld[ct].Def.FieldID - 1
+                if ct not in (val if isinstance(val, dict) else range(len(val))):
+                    raise_error(f'{ts.TypeDef.TypeName}/{fd[FieldName]}: missing tag field "{ctag}": {val}')
+                av = codec.decode(fd.FieldType, {val[ct]: sv})
                 aval[fd[FieldName]] = next(iter(av.values()))
             else:
                 aval[fd[FieldName]] = codec.decode(fd.FieldType, sv)
-- 
2.43.0


From 5d7716781f35d199fbd4ee34534d722722d32bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:20 +0000
Subject: [PATCH 19/62] fix: MapOf may use a built-in key type

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 6ce682c..3b1ee1b 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -170,7 +170,7 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
-        if tdef.BaseType == 'MapOf' and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
+        if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
-- 
2.43.0


From 5bb649f52efe9a9eefa2796257a341fc6f4b3aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:32 +0000
Subject: [PATCH 20/62] fix: untagged unions try the next alternative when one
 refuses the value with TypeError

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index fa5f670..34f9c91 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -259,7 +259,7 @@ def _encode_choice(ts: SymbolTableField, val, codec: 'Codec'):
                 ct += 1
                 if combine == 'O':              # anyOf - done on success
                     break
-            except ValueError as e:
+            except (ValueError, TypeError) as e:
                 cf += 1
                 err.append(e)
                 continue
@@ -297,7 +297,7 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
                 ct += 1
                 if combine == 'O':  # oneOf - done on success
                     break
-            except ValueError:
+            except (ValueError, TypeError):
                 cf += 1
                 continue
         td = ts.TypeDef
-- 
2.43.0


From 54a0b0b81b3bf2e8ec264c4a5f146bd5745adddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:36 +0000
Subject: [PATCH 21/62] fix: decode counts populated values, as encode does,
 for concise records and formatted arrays

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 34f9c91..e146dbc 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -359,7 +359,7 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
 
 def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, ts.EncType)
-    _check_size(ts, sval)   # TODO: _check_count() for concise records
+    _check_count(ts, sval)
     val = sval
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
@@ -429,7 +429,7 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
     val = ts.FormatDecode(sval)
     _check_type(ts, val, list)
-    _check_count(ts, sval)
+    _check_count(ts, val)
     aval = list()
     if len(val) > len(ts.Fld):
         _extra_value(ts, val, set(aval[len(ts.Fld):]))
-- 
2.43.0


From 26906a6a0c5b78fb64e78cde1a6f2b6dd0eee1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:41 +0000
Subject: [PATCH 22/62] fix: unique ArrayOf values that differ in nested list
 order are not duplicates

---
 distribution/src/jadn/codec/codec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index e146dbc..85d92f7 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -56,12 +56,12 @@ class CodecTableField(BasicDataclass):
 
 
 def fset(x):
-    if isinstance(x, dict):
-        return frozendict({k: fset(v) for k, v in x.items()})
-    try:
-        return frozenset(x) if isinstance(x, (tuple, list, set)) else x
-    except TypeError as e:
-        return frozenset((fset(v) for v in x))
+    def freeze(v):      # Hashable copy of a value: order of nested lists is significant
+        if isinstance(v, dict):
+            return frozendict({k: freeze(e) for k, e in v.items()})
+        return tuple(freeze(e) for e in v) if isinstance(v, (tuple, list)) else v
+
+    return frozenset(freeze(v) for v in x)
 
 
 def _bad_index(ts: SymbolTableField, k: int, val: list) -> None:
-- 
2.43.0


From a9828ae0b88e9b304aac71aa0687415b3c21eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:54 +0000
Subject: [PATCH 23/62] fix: decode refuses a formatted value that is not text

---
 distribution/src/jadn/codec/codec.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 85d92f7..96156c2 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -5,6 +5,7 @@ import re
 from dataclasses import dataclass
 from frozendict import frozendict
 from typing import Any, Callable, Dict, Optional, Union
+from .format_serialize_json import _format_pass
 from ..utils import raise_error
 from ..definitions import FieldID, FieldName, BasicDataclass, TypeDefinition, GenFieldDefinition
 # TODO: add DEFAULT to dataclasses
@@ -100,8 +101,14 @@ def _format_encode(ts: SymbolTableField, val: Any) -> Any:
     return ts.FormatEncode(val)
 
 
+def _format_convert(ts: SymbolTableField, val: Any) -> Any:
+    if ts.FormatDecode is not _format_pass:     # Conversions are from text (or from bytes in multipart formats)
+        _check_type(ts, val, (str, bytes))
+    return ts.FormatDecode(val)
+
+
 def _format_decode(ts: SymbolTableField, val: Any) -> Any:
-    aval = ts.FormatDecode(val)
+    aval = _format_convert(ts, val)
     try:
         ts.FormatValidate(aval)
     except ValueError:
@@ -427,7 +434,7 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
 
 
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
-    val = ts.FormatDecode(sval)
+    val = _format_convert(ts, sval)
     _check_type(ts, val, list)
     _check_count(ts, val)
     aval = list()
-- 
2.43.0


From 9f07e595a1caab50ddc5fd7a2386e250369ec5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:00 +0000
Subject: [PATCH 24/62] fix: an empty hostname is refused with ValueError

---
 distribution/src/jadn/codec/format_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 8bacf45..aed40a9 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -46,7 +46,7 @@ def s_hostname(sval: str) -> str:
     if not isinstance(sval, type('')):
         raise TypeError
     hostname = sval[:]      # Copy since we're modifying input
-    if hostname[-1] == ".":
+    if hostname.endswith("."):
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-- 
2.43.0


From 1c234a41b6f498c21b67eee38d217fe80cbb8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:04 +0000
Subject: [PATCH 25/62] fix: a missing array tag field is a validation error

---
 distribution/src/jadn/codec/codec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 96156c2..c508c3c 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -418,6 +418,8 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
         av = aval[fx] if len(aval) > fx else None
         if av is not None:
             if 'tagid' in fopts:
+                if len(aval) < int(fopts['tagid']):
+                    raise_error(f'{ts.TypeDef.TypeName}/{f.FieldName}: missing tag field {fopts["tagid"]}: {aval}')
                 choice_type = aval[int(fopts['tagid']) - 1]
                 e = codec.encode(f.FieldType, {choice_type: av})
                 sv = e[next(iter(e))]
@@ -447,6 +449,8 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
         sv = val[fx] if len(val) > fx else None
         if sv is not None:
             if 'tagid' in fopts:
+                if len(val) < int(fopts['tagid']):
+                    raise_error(f'{ts.TypeDef.TypeName}/{f.FieldName}: missing tag field {fopts["tagid"]}: {val}')
                 choice_type = val[int(fopts['tagid']) - 1]
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
-- 
2.43.0


From e872989ab7c012ddc2179791669c7ade6a7f405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:09 +0000
Subject: [PATCH 26/62] fix: values of types without items or fields are
 refused with ValueError

---
 distribution/src/jadn/codec/codec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index c508c3c..1323034 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -118,7 +118,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 
 def _check_key(ts: SymbolTableField, val):
     try:
-        return int(val) if isinstance(next(iter(ts.dMap)), int) else val
+        return int(val) if isinstance(next(iter(ts.dMap), None), int) else val
     except ValueError:
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
@@ -239,7 +239,7 @@ def _decode_string(ts: SymbolTableField, sval, codec: 'Codec'):
 
 def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: disable=R1710
     # TODO: Serialization
-    _check_type(ts, aval, type(next(iter(ts.eMap))))
+    _check_type(ts, aval, type(next(iter(ts.eMap), '')))
     if aval in ts.eMap:
         return ts.eMap[aval]
     td = ts.TypeDef
@@ -247,7 +247,7 @@ def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: d
 
 
 def _decode_enumerated(ts: SymbolTableField, sval, codec: 'Codec'):  # pylint: disable=R1710
-    _check_type(ts, sval, type(next(iter(ts.dMap))))
+    _check_type(ts, sval, type(next(iter(ts.dMap), '')))
     if sval in ts.dMap:
         return ts.dMap[sval]
     td = ts.TypeDef
-- 
2.43.0


From 71199143addb296045865eaea35a7077cc33433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:57 +0000
Subject: [PATCH 27/62] fix: a tag field with ID 0 is a tag field: keep it in
 JIDL and check it

---
 distribution/src/jadn/core.py  | 2 +-
 distribution/src/jadn/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index c1d408b..ecf280f 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -133,7 +133,7 @@ def check(schema: dict) -> dict:
                 if minc < 0 or maxc < 0 or (0 < maxc < minc):
                     raise_error(f'{type_def.TypeName}/{field.FieldName} bad multiplicity {minc} {maxc}')
 
-                if tf := fo.get('tagid', None):
+                if (tf := fo.get('tagid', None)) is not None:
                     if tf not in {f[FieldID] for f in fields}:
                         raise_error(f'{type_def.TypeName}/{field.FieldName}({field.FieldType}) choice has bad external tag {tf}')
                 if is_builtin(field.FieldType):
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index b16add1..7c746b7 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -398,7 +398,7 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
         fo, fto = ftopts_s2d(fdef[FieldOptions])
         fname += '/' if 'dir' in fo else ''
         tf = ''
-        if tagid := fo.get('tagid', None):
+        if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
             tf = f'(TagId[{tf if tf else tagid}])'
         ft = jadn2typestr(f'{fdef[FieldType]}{tf}', opts_d2s(fto))
-- 
2.43.0


From 61a2f91dd606c90c4158c0ec15be4c9fc219d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 28/62] fix: check uniqueness of decoded elements and keys, not
 of their serialized form

---
 distribution/src/jadn/codec/codec.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 1323034..b44fb49 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -478,10 +478,11 @@ def _encode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
 def _decode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
     _check_type(ts, val, list)
     _check_size(ts, val)
-    if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:
-        if len(val) != len(fset(val)):
+    aval = [codec.decode(ts.TypeOpts['vtype'], v) for v in val]
+    if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:     # Different serialized values may decode to the same value
+        if len(aval) != len(fset(aval)):
             _bad_value(ts, val)
-    return [codec.decode(ts.TypeOpts['vtype'], v) for v in val]
+    return aval
 
 
 def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
@@ -502,7 +503,10 @@ def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
         except ValueError:
             return k
 
-    return {codec.decode(to['ktype'], key(k)): codec.decode(to['vtype'], v) for k, v in sval.items()}
+    aval = {codec.decode(to['ktype'], key(k)): codec.decode(to['vtype'], v) for k, v in sval.items()}
+    if len(aval) != len(sval):      # Different serialized keys may decode to the same key
+        _bad_value(ts, sval)
+    return aval
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From 8b2423c0d5368e6a700bd0b6d31aa512aae3760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 29/62] fix: JIDL loader drops a line whose description
 contains a quoted string

---
 distribution/src/jadn/convert/jidl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 41a117d..b6569c0 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -96,7 +96,8 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
             return 'I', [m.group(1), m.group(2)]
 
         q = re.search(r'"(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
-        s = q.end() if q else 0
+        c = line.find(' //')
+        s = q.end() if q and (c < 0 or q.start() < c) else 0     # Quoted string within a comment is not a pattern
         desc = ''
         if d := re.search(r' //', line[s:]):
             desc = line[s + d.end():].strip()
-- 
2.43.0


From 5e9969c317804175916a4c32b37171a1e7d5e200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 30/62] fix: JIDL loader raises on a line it does not recognize
 instead of dropping it

---
 distribution/src/jadn/convert/jidl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index b6569c0..5a66be5 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -123,6 +123,7 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
                     return 'F', fielddef2jadn(int(m.group(1)), m.group(2), m.group(3), m_range if m_range else '', desc)
         else:
             raise_error(f'JIDL Load - field with no type: {repr(line)}')
+        raise_error(f'JIDL Load - unrecognized line: {repr(line)}')
 
     return '', []
 
-- 
2.43.0


From 5f8aa9d5e93aece9c88f5f2f922bbda3bff7f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 31/62] fix: JIDL and HTML loaders leave a tag field name
 unresolved in the last type

---
 distribution/src/jadn/convert/html.py | 2 ++
 distribution/src/jadn/convert/jidl.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index c3fc49f..7221f2b 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -172,6 +172,8 @@ def html_loads(hdoc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    if fields:
+        cleanup_tagid(fields)
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 5a66be5..11a738d 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -145,6 +145,8 @@ def jidl_loads(doc: str) -> dict:
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    if fields:
+        cleanup_tagid(fields)
     return check({'info': info, 'types': types} if info else {'types': types})
 
 
-- 
2.43.0


From 088b26423207e1dae7a6b0c77ed3936efad76e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 32/62] fix: JADN saved with a Generated from header cannot be
 loaded

---
 distribution/src/jadn/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index ecf280f..74d352e 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -5,6 +5,7 @@ import json
 import jsonschema
 import numbers
 import os
+import re
 import jadn
 
 from datetime import datetime
@@ -164,11 +165,13 @@ def analyze(schema: dict) -> dict:
 
 
 def loads(jadn_str: str) -> dict:
+    if m := re.match(r'"Generated from [^\n]*"\n\n', jadn_str):      # Ignore "Generated from" header
+        jadn_str = jadn_str[m.end():]
     return check(json.loads(jadn_str))
 
 
 def load(fp: TextIO) -> dict:
-    return check(json.load(fp))
+    return loads(fp.read())
 
 
 def load_any(fp: TextIO) -> dict:
-- 
2.43.0


From acf7bcf61f62bff05f7291cd44b9a5ebe134d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:00 +0000
Subject: [PATCH 33/62] fix: text inside a string pattern is not a format or
 keyword

---
 distribution/src/jadn/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 7c746b7..34bff86 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -293,6 +293,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
                     topts.update({} if b == '*' else {'maxv': int(b)})
             else:
                 raise_error(f'unrecognized arg "{opt}", expected pattern or range')
+        rest = re.sub(p_rangepat, '', rest)     # Text inside a pattern is not a format or keyword
         for opt in re.findall(p_format, rest):
             topts.update({'format': opt})
         for opt in re.findall(p_kw, rest):
-- 
2.43.0


From 00dba882e3c23017a9949d88a17e63f395ab5ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 34/62] fix: saving text that cannot be encoded destroys the
 existing file

---
 distribution/src/jadn/convert/diagram_w.py | 1 +
 distribution/src/jadn/convert/jidl.py      | 1 +
 distribution/src/jadn/convert/markdown.py  | 1 +
 distribution/src/jadn/core.py              | 1 +
 4 files changed, 4 insertions(+)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index d82f756..f9b1971 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -182,6 +182,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
     doc = diagram_dumps(schema, style)     # Render before opening, so a failed conversion leaves an existing file intact
+    doc.encode('utf8')         # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 11a738d..246a7a5 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -79,6 +79,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
 
 def jidl_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None) -> None:
     doc = jidl_dumps(schema, style)     # Render before opening, so a failed conversion leaves an existing file intact
+    doc.encode('utf8')         # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 73ebe5a..b037690 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -95,6 +95,7 @@ def format_table(rows: list) -> str:
 
 def markdown_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None) -> None:
     doc = markdown_dumps(schema, style)     # Render before opening, so a failed conversion leaves an existing file intact
+    doc.encode('utf8')         # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'<!--- Generated from {source}, {datetime.ctime(datetime.now())} --->\n\n')
diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 74d352e..6811862 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -217,6 +217,7 @@ def dumps(schema: dict, strip: bool = False) -> str:
 
 def dump(schema: dict, fname: Union[str, bytes, int], source: str = '', strip: bool = False) -> None:
     doc = dumps(schema, strip=strip)     # Render before opening, so a failed conversion leaves an existing file intact
+    doc.encode('utf8')         # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'"Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
-- 
2.43.0


From c679a31350e41499ba7ebe9a9dc088b2d6a2d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:05 +0000
Subject: [PATCH 35/62] fix: reject unrecognized text after a type in a type
 string, instead of ignoring it

---
 distribution/src/jadn/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 34bff86..f5cd705 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -280,7 +280,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
             fo += [opts[0]] if ord(opts[0][0]) in FIELD_OPTIONS else []         # TagId option
     if rest := m.group(4):
         for opt in re.findall(p_rangepat, rest):
-            if m := re.match('pattern=\"(.+)\"', opt):
+            if m := re.fullmatch('pattern=\"(.+)\"', opt):
                 topts.update({'pattern': m.group(1)})
             elif len(x := opt.split('..', maxsplit=1)) == 2:
                 a, b = x
@@ -296,8 +296,11 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
         rest = re.sub(p_rangepat, '', rest)     # Text inside a pattern is not a format or keyword
         for opt in re.findall(p_format, rest):
             topts.update({'format': opt})
+        rest = re.sub(p_format, '', rest, count=1)
         for opt in re.findall(p_kw, rest):
             topts.update({opt: True})
+        if rest := re.sub(p_kw, '', rest).strip():      # Anything else is not part of a type string
+            raise_error(f'TypeString2JADN: unexpected text "{rest}" in "{typestring}"')
     return tname, opts_d2s(topts), fo
 
 
-- 
2.43.0


From 5b8638412dcdf8b9c002ff8e1ac7dfc5669f4b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:10 +0000
Subject: [PATCH 36/62] fix: reject HTML schema cells that are repeated or out
 of place, instead of ignoring or overriding them

---
 distribution/src/jadn/convert/html.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 7221f2b..0037002 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -6,7 +6,7 @@ from typing import Generator, TextIO, Tuple, Union
 from lxml import html
 from .utils import DocHTML
 from ..definitions import Fields, ItemID, ItemDesc, FieldID, INFO_ORDER, TypeDefinition
-from ..utils import cleanup_tagid, fielddef2jadn, jadn2fielddef, jadn2typestr, typestr2jadn
+from ..utils import cleanup_tagid, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
 from ..core import check
 """
 Convert JADN schema to and from HTML format
@@ -142,6 +142,12 @@ def line2jadn(lt: dict, tdef) -> Tuple[str, list]:
 def html_loads(hdoc: str) -> dict:
     tclass = ('jKey', 'jVal', 'jTname', 'jTstr', 'jTdesc', 'jFid', 'jFname', 'jFstr', 'jFmult', 'jFdesc')
 
+    lclass = {                          # Token class that starts a line, other classes in that line
+        'jKey': ('jVal', ),
+        'jTname': ('jTstr', 'jTdesc'),
+        'jFid': ('jFname', 'jFstr', 'jFmult', 'jFdesc')
+    }
+
     # TODO: convert to use minidom
     def get_line(hdoc: str) -> Generator[dict, None, None]:
         line = {}
@@ -149,10 +155,12 @@ def html_loads(hdoc: str) -> dict:
             cl = [c for c in element.get('class', '').split() if c in tclass]  # Get element's token class
             if cl:
                 assert len(cl) == 1  # TODO: Can't be more than one - replace assertions with proper errors
-                if cl[0] in ('jKey', 'jTname', 'jFid'):
+                if cl[0] in lclass:
                     if line:
                         yield line
-                        line = {}
+                    line = {}
+                elif cl[0] in line or cl[0] not in lclass.get(next(iter(line), ''), ()):
+                    raise_error(f'HTML Load - unexpected {cl[0]} "{element.text}" in {line}')
                 line.update({cl[0]: element.text})
         yield line
 
-- 
2.43.0


From e48d6e4790c28b187de7a08e8cc85688cd59d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:27 +0000
Subject: [PATCH 37/62] fix: reject type string arguments that the type does
 not have, instead of ignoring or misreading them

---
 distribution/src/jadn/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index f5cd705..b3fd2ee 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -250,7 +250,11 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
         m1 = re.match(r'^\s*([-$:\w]+)(?:\[([^]]+)])?$', optstr)   # Typeref: nsid:Name$qualifier
         if m1 is None:
             raise_error(f'TypeString2JADN: unexpected function: {optstr}')
-        return OPTION_ID[m1.group(1).lower()] + m1.group(2) if m1.group(2) else m1.group(1)
+        if m1.group(2):
+            if m1.group(1).lower() not in ('enum', 'pointer', 'tagid'):
+                raise_error(f'TypeString2JADN: unexpected function: {optstr}')
+            return OPTION_ID[m1.group(1).lower()] + m1.group(2)
+        return m1.group(1)
 
     topts = {}
     fo = []
@@ -275,9 +279,12 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
             topts.update({'vtype': opts[0]})
         elif tname == 'Choice':
             topts.update({'combine': {'anyOf': 'O', 'allOf': 'A', 'oneOf': 'X'}[opts[0]]})
+        elif opts[0].startswith((OPTION_ID['enum'], OPTION_ID['pointer'])):
+            topts.update(topts_s2d([opts[0]]))
+        elif opts[0].startswith(OPTION_ID['tagid']):
+            fo += [opts[0]]         # TagId option
         else:
-            topts.update(topts_s2d([opts[0]]) if ord(opts[0][0]) in TYPE_OPTIONS else {})
-            fo += [opts[0]] if ord(opts[0][0]) in FIELD_OPTIONS else []         # TagId option
+            raise_error(f'TypeString2JADN: unexpected argument "{opts[0]}" in "{typestring}"')
     if rest := m.group(4):
         for opt in re.findall(p_rangepat, rest):
             if m := re.fullmatch('pattern=\"(.+)\"', opt):
-- 
2.43.0


From deda63f95b649803f11a3a9a8ba226b946b0cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:52 +0000
Subject: [PATCH 38/62] fix: reject HTML schema cells that hold markup, instead
 of dropping the text after it

---
 distribution/src/jadn/convert/html.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 0037002..cc31828 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -155,6 +155,8 @@ def html_loads(hdoc: str) -> dict:
             cl = [c for c in element.get('class', '').split() if c in tclass]  # Get element's token class
             if cl:
                 assert len(cl) == 1  # TODO: Can't be more than one - replace assertions with proper errors
+                if len(element):        # Markup inside a token would cut its text short
+                    raise_error(f'HTML Load - unexpected {element[0].tag} in {cl[0]} "{element.text}"')
                 if cl[0] in lclass:
                     if line:
                         yield line
-- 
2.43.0


From 91a48cd9d9ee770a76f07d50d2177db56d921b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:44 +0000
Subject: [PATCH 39/62] fix: reject a maximum multiplicity of 0 in a field
 definition, instead of reading it as unlimited

---
 distribution/src/jadn/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index b3fd2ee..0eda306 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -438,6 +438,8 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
                 maxc = 0 if maxc == '*' else int(maxc)
             else:
                 minc = maxc = int(groups[0])
+            if maxc == 0 and groups[1] != '*':      # maxc option 0 means unlimited
+                raise_error(f'FieldDef2JADN: invalid multiplicity "{fmult}" in {fid} {fname}')
             fo.update({'minc': minc} if minc != 1 else {})
             fo.update({'maxc': maxc} if maxc != 1 else {})
         elif fmult:
-- 
2.43.0


From 51668044c1396b22d4c1f191de99c64f8412c418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:52 +0000
Subject: [PATCH 40/62] fix: batch conversion result depends on directory
 listing order

---
 distribution/make-artifacts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/make-artifacts.py b/distribution/make-artifacts.py
index 69e5c58..7e05538 100644
--- a/distribution/make-artifacts.py
+++ b/distribution/make-artifacts.py
@@ -36,7 +36,7 @@ def main(schema_dir: str = SCHEMA_DIR, output_dir: str = OUTPUT_DIR) -> None:
     css_dir = os.path.join(output_dir, 'css')
     os.makedirs(css_dir, exist_ok=True)
     shutil.copy(os.path.join(jadn.data_dir(), 'dtheme.css'), css_dir)
-    for f in os.listdir(schema_dir):
+    for f in sorted(os.listdir(schema_dir)):      # Same result in any directory order
         translate(f, schema_dir, output_dir)
 
 
-- 
2.43.0


From d5a0065a22291ad4961c838898de32035d39e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 41/62] fix: resolve_imports drops types that only an
 enumeration is derived from, and changes the given schema

---
 distribution/src/jadn/transform/resolve.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 2194bbe..74459e6 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -99,26 +99,17 @@ def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: d
     return td
 
 
-def make_enum(sm: SchemaPackage, tname: str, sys: str = '$') -> bool:
-    if tname[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-        tn = tname[1:]
-        if tn not in sm.used and tn in sm.tx:
-            etype = 'Enum' if tname[0] == OPTION_ID['enum'] else 'Point'
-            sm.schema['types'].append([f'{tn}{sys}{etype}', 'Enumerated', [], '', [[f[0], f[1], ''] for f in sm.tx[tn][Fields]]])
-        return True
-    return False
-
-
 # add referenced typenames in this package to used list
 def add_types(sm: SchemaPackage, tname: str, sys: str = '$') -> None:
+    if tname[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):   # Enumeration derived from the type's fields
+        tname = tname[1:]
     if {tname} - sm.used:
         sm.add_used(tname)
         try:
             for tn in sm.deps[tname]:
                 add_types(sm, tn, sys)
         except KeyError as e:
-            if not make_enum(sm, tname, sys):
-                raise_error(f'Resolve: {e} not defined in {sm.package} ({sm.source})')
+            raise_error(f'Resolve: {e} not defined in {sm.package} ({sm.source})')
 
 
 # add referenced types from other packages to used list
@@ -157,12 +148,6 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             nsids[m].append('' if i in no_nsid else i)
     resolve(root, root.schema['info']['exports'] if 'exports' in root.schema['info'] else set(), packages)
 
-    for t in root.used.copy():
-        if t[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-            if t[1:] not in root.used:
-                raise_error(f'Resolve: no base type for {t}')
-            root.used.remove(t)     # Don't need explicit type if base type is present
-
     # Copy all needed types from other packages into root
     nsids[root.package] = ['']
     sc = {'info': {k: v for k, v in root.schema['info'].items() if k != 'namespaces'}, 'types': []}    # Remove namespaces
-- 
2.43.0


From 32a9b10794de2e9face0d1230724e2fe0fbfd091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:53 +0000
Subject: [PATCH 42/62] fix: resolve_imports fails on enumerations derived from
 imported types

---
 distribution/src/jadn/transform/resolve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 74459e6..c30a280 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -47,7 +47,7 @@ class SchemaPackage:
             for dn in list(self.deps[tn]):     # Iterate over copy so original can be modified safely
                 if ':' in dn:
                     self.deps[tn].remove(dn)
-                    nsid, typename = dn.split(':', maxsplit=1)
+                    nsid, typename = dn.lstrip(OPTION_ID['enum'] + OPTION_ID['pointer']).split(':', maxsplit=1)
                     try:
                         self.refs[self.namespaces[nsid]][tn].add(typename)
                     except KeyError as e:
@@ -71,6 +71,8 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
     :param sys: single character system generated type delimiter
     :return: Local type name, qualified (TypeName$nsid) or unqualified (TypeName)
     """
+    if tref[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):    # Enumeration derived from the type's fields
+        return tref[0] + merge_tname(tref[1:], package, namespaces, nsids, sys)
     nsid, tname = tref.split(':', maxsplit=1) if ':' in tref else ('', tref)
     ns_id = nsids[namespaces[nsid] if nsid else package][0]
     return f'{tname}{sys}{ns_id}' if ns_id and not is_builtin(tname) else tname
-- 
2.43.0


From 12951cb1eaeadc37760b821fd0e82dc6010a9037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 43/62] fix: resolve_imports ignores the given schema's own
 namespaces unless its file is in the directory

---
 distribution/src/jadn/transform/resolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index c30a280..db440dd 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -148,6 +148,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid else i)
+    for i, m in root.namespaces.items():        # Root schema may not be in dirname
+        nsids[m].append('' if i in no_nsid else i)
     resolve(root, root.schema['info']['exports'] if 'exports' in root.schema['info'] else set(), packages)
 
     # Copy all needed types from other packages into root
-- 
2.43.0


From 2ac60bf611dc61b78af4ac91d4271684d3a84403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 44/62] fix: resolve_imports gives types of different packages
 the same name if a namespace id is used for both

---
 distribution/src/jadn/transform/resolve.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index db440dd..8a3931f 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -150,6 +150,15 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             nsids[m].append('' if i in no_nsid else i)
     for i, m in root.namespaces.items():        # Root schema may not be in dirname
         nsids[m].append('' if i in no_nsid else i)
+    assigned = set()
+    for ids in nsids.values():                  # Different packages must have different namespace ids
+        nsid = base = next((i for i in ids if not i or i not in assigned), ids[0])
+        n = 1
+        while nsid and nsid in assigned:
+            n += 1
+            nsid = f'{base}{n}'
+        assigned.add(nsid)
+        ids[:] = [nsid]
     resolve(root, root.schema['info']['exports'] if 'exports' in root.schema['info'] else set(), packages)
 
     # Copy all needed types from other packages into root
-- 
2.43.0


From f7a092eaf52c1c9b31f9a673212eae7f8ec8c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 45/62] fix: a null member of a Map or verbose Record does not
 count towards its size

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index b44fb49..0728247 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -366,7 +366,7 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
 
 def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, ts.EncType)
-    _check_count(ts, sval)
+    _check_count(ts, sval.values() if isinstance(sval, dict) else sval)
     val = sval
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
-- 
2.43.0


From cf97c687418bb7d949bb6662fb9902f3d96ecf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 46/62] fix: refuse a multiplicity in a field or item that has
 no type

---
 distribution/src/jadn/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 0eda306..4131fa3 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -447,6 +447,8 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
         if fopts:
             assert len(fopts) == 1 and fopts[0][0] == OPTION_ID['tagid']    # Update if additional field options defined
             fo.update({'tagid': fopts[0][1:]})      # if field name, MUST update to id after all fields have been read
+    elif fmult:     # An enumerated item has no type and no multiplicity
+        raise_error(f'FieldDef2JADN: multiplicity "{fmult}" without type in {fid} {fname}')
     if fdesc:
         m = re.match(r'^(?:\s*\/\/)?\s*(.*)$', fdesc)
         fdesc = m.group(1)
-- 
2.43.0


From 1735687aaebfb1a9e58eb3af2f72dcef3aedaa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 47/62] fix: Codec.decode refuses two keys for one field
 instead of dropping the first

---
 distribution/src/jadn/codec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 0728247..77f1440 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -370,6 +370,8 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     val = sval
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
+        if len(val) != len(sval):   # Different serialized keys may denote the same field
+            _bad_value(ts, sval)
     aval = dict()
     fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID  # Verbose or minified identifiers
     fnames = list(ts.Fld)
-- 
2.43.0


From 130d539a369ac0afe0948d559ebac8821767b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 48/62] fix: check refuses a schema whose types, or a type, is
 not a list

---
 distribution/src/jadn/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 6811862..e151a63 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -60,6 +60,8 @@ def check(schema: dict) -> dict:
     Validate JADN schema against JADN meta-schema, then
     Perform additional checks on type definitions
     """
+    if not isinstance(schema['types'], (list, tuple)) or not all(isinstance(t, (list, tuple)) for t in schema['types']):
+        raise_error('Schema types must be a list of type definitions')
     # Add empty Fields if not present
     schema_types = [TypeDefinition(*t) for t in schema['types']]
     schema['types'] = [list(t) for t in schema_types]
-- 
2.43.0


From 52ce1f138bdb65a35a09531f94482eda5926227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:55 +0000
Subject: [PATCH 49/62] fix: check refuses an empty format name

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index e151a63..4f3a10a 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -44,7 +44,7 @@ def check_typeopts(type_name: str, base_type: str, topts: dict) -> None:
         raise_error(f'String cannot have both pattern and size constraints: {type_name}')  # disable for debugging
 
     # TODO: if format defines array, add minv/maxv (prevents adding default max)
-    if fmt := topts.get('format'):
+    if (fmt := topts.get('format')) is not None:
         if fmt not in VALID_FORMATS or base_type != VALID_FORMATS[fmt]:
             raise_error(f'Unsupported format {fmt} in {type_name} {base_type}')
     if 'enum' in topts and 'pointer' in topts:
-- 
2.43.0


From 613f54ac109ac66d111de8a07f129e0b89467cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 50/62] fix: JIDL can carry the dir option of fields identified
 by id

---
 distribution/src/jadn/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 4131fa3..5ef87ae 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -398,16 +398,16 @@ def id_type(td: list) -> bool:    # True if FieldName is a label in description
 
 def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
     idtype = id_type(tdef)
-    fname = '' if idtype else fdef[FieldName]
-    fdesc = f'{fdef[FieldName]}:: ' if idtype else ''
     is_enum = tdef[BaseType] == 'Enumerated'
+    fo, fto = ({}, {}) if is_enum else ftopts_s2d(fdef[FieldOptions])
+    name = fdef[FieldName] + ('/' if 'dir' in fo else '')
+    fname = '' if idtype else name
+    fdesc = f'{name}:: ' if idtype else ''
     fdesc += fdef[ItemDesc if is_enum else FieldDesc]
     ftyperef = ''
     fmult = ''
 
     if not is_enum:
-        fo, fto = ftopts_s2d(fdef[FieldOptions])
-        fname += '/' if 'dir' in fo else ''
         tf = ''
         if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
@@ -456,6 +456,9 @@ def fielddef2jadn(fid: int, fname: str, fstr: str, fmult: str, fdesc: str) -> li
             if m := re.match(r'^([^:]+)::\s*(.*)$', fdesc):
                 fname = m.group(1)
                 fdesc = m.group(2)
+                if ftyperef and fname.endswith('/'):
+                    fo.update({'dir': True})
+                    fname = fname.rstrip('/')
     return [fid, fname, ftyperef, opts_d2s(fo), fdesc] if ftyperef else [fid, fname, fdesc]
 
 
-- 
2.43.0


From 3daf664c41a7e2791dad0d6b85b9ce4fe24623a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 51/62] fix: pointers into nested fields keep the outer part of
 their path

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 3b1ee1b..e37a5a8 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -139,7 +139,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 for f in tdef.Fields:
                     if OPTION_ID['dir'] in f.FieldOptions:
                         if f.FieldType in typex:
-                            yield from pathnames(f.FieldType, f'{f.FieldName}/')
+                            yield from pathnames(f.FieldType, f'{base}{f.FieldName}/')
                     else:
                         yield [base + f.FieldName, f.FieldDesc]
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
-- 
2.43.0


From 63aa705017045d96c7ebc82dad9003357358485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 52/62] fix: an infinite tag is a validation error

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 77f1440..460c477 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -119,7 +119,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 def _check_key(ts: SymbolTableField, val):
     try:
         return int(val) if isinstance(next(iter(ts.dMap), None), int) else val
-    except ValueError:
+    except (ValueError, OverflowError):
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
 
-- 
2.43.0


From 6a728e994ae53288917275bf590404dc873d14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 53/62] fix: NaN is not within the bounds of a Number

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 460c477..7802dad 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -144,9 +144,9 @@ def _check_range(ts: SymbolTableField, val):
 def _check_frange(ts: SymbolTableField, val):
     op = ts.TypeOpts
     tn = ts.TypeDef.TypeName
-    if 'minf' in op and val < op['minf']:
+    if 'minf' in op and not val >= op['minf']:      # NaN is not within any bound
         raise_error(f'{tn}: {val} < minimum {op["minf"]}')
-    if 'maxf' in op and val > op['maxf']:
+    if 'maxf' in op and not val <= op['maxf']:
         raise_error(f'{tn}: {val} < maximum {op["maxf"]}')
     return val
 
-- 
2.43.0


From 1c089ba7ab2065485d7be1ef5107cb6ef13c1ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 54/62] fix: timestamps without a time zone are not read as
 local time

---
 distribution/src/jadn/codec/format_serialize_json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index c6ad0e3..08cfb28 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -172,6 +172,8 @@ def int2datems(dt: int) -> str:
 
 def datems2int(dts: str) -> int:
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
+    if x.tzinfo is None:        # Don't read it as local time of wherever this runs
+        raise ValueError(f'{dts}: date-time without time zone')
     return round(1000 * datetime.timestamp(x))
 
 
-- 
2.43.0


From 9a6146d7bc98c66953d5f01a3f4e13e0c31c9f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 55/62] fix: an unencodable source name leaves the existing
 output file intact

---
 distribution/src/jadn/convert/diagram_w.py      | 2 +-
 distribution/src/jadn/convert/html.py           | 1 +
 distribution/src/jadn/convert/jidl.py           | 2 +-
 distribution/src/jadn/convert/markdown.py       | 2 +-
 distribution/src/jadn/core.py                   | 2 +-
 distribution/src/jadn/translate/jsonschema_w.py | 1 +
 6 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index f9b1971..81afd6c 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -182,7 +182,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
     doc = diagram_dumps(schema, style)     # Render before opening, so a failed conversion leaves an existing file intact
-    doc.encode('utf8')         # Likewise for text that cannot be encoded
+    f'{source}{doc}'.encode('utf8')     # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index cc31828..85ac4d1 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -110,6 +110,7 @@ def html_dumps(schema: dict) -> str:
 
 def html_dump(schema: dict, fname: Union[bytes, str, int], source='') -> None:
     doc = html_dumps(schema)     # Render before opening, so a failed conversion leaves an existing file intact
+    f'{source}{doc}'.encode('utf8')     # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'<! Generated from {source}, {datetime.ctime(datetime.now())}>\n\n')
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 246a7a5..8aaa98b 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -79,7 +79,7 @@ def jidl_dumps(schema: dict, style: dict = None) -> str:
 
 def jidl_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None) -> None:
     doc = jidl_dumps(schema, style)     # Render before opening, so a failed conversion leaves an existing file intact
-    doc.encode('utf8')         # Likewise for text that cannot be encoded
+    f'{source}{doc}'.encode('utf8')     # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index b037690..fb0ef45 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -95,7 +95,7 @@ def format_table(rows: list) -> str:
 
 def markdown_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None) -> None:
     doc = markdown_dumps(schema, style)     # Render before opening, so a failed conversion leaves an existing file intact
-    doc.encode('utf8')         # Likewise for text that cannot be encoded
+    f'{source}{doc}'.encode('utf8')     # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'<!--- Generated from {source}, {datetime.ctime(datetime.now())} --->\n\n')
diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 4f3a10a..9029c3f 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -219,7 +219,7 @@ def dumps(schema: dict, strip: bool = False) -> str:
 
 def dump(schema: dict, fname: Union[str, bytes, int], source: str = '', strip: bool = False) -> None:
     doc = dumps(schema, strip=strip)     # Render before opening, so a failed conversion leaves an existing file intact
-    doc.encode('utf8')         # Likewise for text that cannot be encoded
+    f'{source}{doc}'.encode('utf8')     # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'"Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 623c446..a081312 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -436,6 +436,7 @@ def json_schema_dumps(schema: dict, verbose=True, enum_style='enum', import_styl
 
 def json_schema_dump(jadn: dict, fname: Union[str, bytes, int], source=None, verbose=True, enum_style='enum', import_style='ref'):
     doc = json_schema_dumps(jadn, verbose, enum_style, import_style)     # Render before opening, so a failed conversion leaves an existing file intact
+    f'{source}{doc}'.encode('utf8')     # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
-- 
2.43.0


From 8d9b8efac7cb2eab71b44633d53ddea33344b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 56/62] fix: enumerations of ids and of names derived from one
 type are told apart

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index e37a5a8..145bfff 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -65,7 +65,7 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     if x is None:
         return None
     oname = 'Enum' if topts[x][0] == OPTION_ID['enum'] else 'Pointer'
-    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') else ''}"
+    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
 
 
 # Replace field multiplicity with explicit ArrayOf type definitions
-- 
2.43.0


From bfb759301d5100c31afd2e55e4b48b3a310301a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:23 +0000
Subject: [PATCH 57/62] fix: maps keyed by a derived enumeration keep their
 keys when it is not replaced

---
 distribution/src/jadn/transform/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 145bfff..47b850d 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -2,7 +2,7 @@ import copy
 
 from typing import Generator, List, NoReturn, Set, Union
 from ..definitions import (
-    TypeName, BaseType, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
+    TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
     EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
 from ..utils import (
     del_opt, ftopts_s2d, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
@@ -171,6 +171,8 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
         if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
+            if epx(schema['types'][typex[to['ktype']]][TypeOptions]) is not None:   # Keys are not listed until derived enumerations are replaced
+                continue
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
-- 
2.43.0


From 9649fe95a0fc5239fea4dccb3a7d47590b42633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:02 +0000
Subject: [PATCH 58/62] fix: maps with listed keys and derived enumerations as
 values unfold to fields

---
 distribution/src/jadn/transform/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 47b850d..8876679 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -173,7 +173,10 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
         if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
             if epx(schema['types'][typex[to['ktype']]][TypeOptions]) is not None:   # Keys are not listed until derived enumerations are replaced
                 continue
-            newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
+            vtype, vopts = to['vtype'], []
+            if vtype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):       # A field's derived enumeration is an option
+                vtype, vopts = 'Enumerated', [vtype]
+            newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], vtype, list(vopts), f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
 
-- 
2.43.0


From 7d60d62f0084309efaecb99cf3508933d8510337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:02 +0000
Subject: [PATCH 59/62] fix: a failed protobuf or JAS conversion leaves the
 existing output file intact

---
 distribution/src/jadn/convert/jas_w.py | 6 ++++--
 distribution/src/jadn/convert/proto.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/jas_w.py b/distribution/src/jadn/convert/jas_w.py
index 61f8006..3d4dd82 100644
--- a/distribution/src/jadn/convert/jas_w.py
+++ b/distribution/src/jadn/convert/jas_w.py
@@ -146,10 +146,12 @@ def jas_dumps(schema: dict) -> str:
 
 
 def jas_dump(schema: dict, fname: Union[bytes, str, int], source='') -> NoReturn:
-    with open(fname, 'w') as f:
+    doc = jas_dumps(schema)     # Render before opening, so a failed conversion leaves an existing file intact
+    f'{source}{doc}'.encode('utf8')     # Likewise for text that cannot be encoded
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'-- Generated from {source}, {datetime.ctime(datetime.now())}\n\n')
-        f.write(jas_dumps(schema))
+        f.write(doc)
 
 
 __all__ = [
diff --git a/distribution/src/jadn/convert/proto.py b/distribution/src/jadn/convert/proto.py
index 6f13385..7d91506 100644
--- a/distribution/src/jadn/convert/proto.py
+++ b/distribution/src/jadn/convert/proto.py
@@ -88,10 +88,12 @@ def proto_dumps(schema: dict, style: dict = None) -> str:
 
 
 def proto_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None) -> NoReturn:
+    doc = proto_dumps(schema, style)     # Render before opening, so a failed conversion leaves an existing file intact
+    f'{source}{doc}'.encode('utf8')     # Likewise for text that cannot be encoded
     with open(fname, 'w', encoding='utf8') as f:
         if source:
             f.write(f'/* Generated from {source}, {datetime.ctime(datetime.now())} */\n\n')
-        f.write(proto_dumps(schema, style))
+        f.write(doc)
 
 
 # Convert PROTO to JADN
-- 
2.43.0


From 065ff57e0a9a6dff80afb176366803f40299962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 60/62] fix: the canonical form of a number limit written with
 an exponent is a number

---
 distribution/src/jadn/utils.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 5ef87ae..ef389de 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -211,13 +211,10 @@ def canonicalize(schema: dict) -> dict:
             del_opt(olist, 'minc')
         if 'maxc' in fo and fo['maxc'] == 1:
             del_opt(olist, 'maxc')
-        if basetype == 'Number':           # TODO: fix corner case input = 2.000
-            minf = get_optx(olist, 'minf')
-            if minf is not None and '.' not in olist[minf]:
-                olist[minf] += '.0'
-            maxf = get_optx(olist, 'maxf')
-            if maxf is not None and '.' not in olist[maxf]:
-                olist[maxf] += '.0'
+        if basetype == 'Number':           # Same text for the same number: 2, 2.0 and 2.000; 1e16 and 1e+16
+            for opt in ('minf', 'maxf'):
+                if (n := get_optx(olist, opt)) is not None:
+                    olist[n] = olist[n][0] + str(float(olist[n][1:]))
 
     cschema = copy.deepcopy(schema)     # don't modify original
     for td in cschema['types']:
-- 
2.43.0


From 68e7441f575fe6d84460708a471aa415f64105d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:03 +0000
Subject: [PATCH 61/62] fix: text after an email address or line end and
 non-ASCII letters in a hostname are refused

---
 distribution/src/jadn/codec/format_validate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index aed40a9..4db8257 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.match(rfc5322_re, sval):
+    if re.fullmatch(rfc5322_re, sval):
         return sval
     raise ValueError
 
@@ -50,8 +50,8 @@ def s_hostname(sval: str) -> str:
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE)
-    if all(allowed.match(x) for x in hostname.split(".")):
+    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)", re.IGNORECASE | re.ASCII)
+    if all(allowed.fullmatch(x) for x in hostname.split(".")):
         return sval
     raise ValueError
 
-- 
2.43.0


From ace0fbb22f04923843204d2bd253e794819a7e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:08 +0000
Subject: [PATCH 62/62] fix: email addresses with capital letters are accepted

---
 distribution/src/jadn/codec/format_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 4db8257..d16ee66 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.fullmatch(rfc5322_re, sval):
+    if re.fullmatch(rfc5322_re, sval, re.IGNORECASE | re.ASCII):
         return sval
     raise ValueError
 
-- 
2.43.0

