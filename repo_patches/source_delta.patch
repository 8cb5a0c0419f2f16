From f5eb2a865ce894684a35552e0c86336daa4e7f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 01/33] fix: re-test the while condition on continue

---
 src/bare_script/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 4d0ccdd..663ed35 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -212,12 +212,14 @@ def parse_script(script_text, start_line_number=1):
         # While-do begin?
         match_while_begin = _R_SCRIPT_WHILE_BEGIN.match(line)
         if match_while_begin:
-            # Add the while-do label
+            # Add the while-do label (a continue can go straight to the loop label only if there's no condition to re-test)
+            while_expr = parse_expression(match_while_begin.group('expr'))
+            is_forever = while_expr == {'variable': 'true'}
             whiledo = {
                 'loop': f'__bareScriptLoop{label_index}',
-                'continue': f'__bareScriptLoop{label_index}',
+                'continue': f'__bareScriptLoop{label_index}' if is_forever else f'__bareScriptContinue{label_index}',
                 'done': f'__bareScriptDone{label_index}',
-                'expr': parse_expression(match_while_begin.group('expr')),
+                'expr': while_expr,
                 'line': line,
                 'lineNumber': start_line_number + ix_line
             }
@@ -242,6 +244,8 @@ def parse_script(script_text, start_line_number=1):
                 raise BareScriptParserError('No matching while statement', line, 1, start_line_number + ix_line)
 
             # Add the while-do footer statements
+            if whiledo.get('hasContinue') and whiledo['continue'] != whiledo['loop']:
+                statements.append({'label': whiledo['continue']})
             statements.append({'jump': {'label': whiledo['loop'], 'expr': whiledo['expr']}})
             statements.append({'label': whiledo['done']})
             continue
-- 
2.43.0


From 7c26cb5b7ea8524662a24fde7a639862e98e94a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 02/33] fix: allow calling functions with single-character
 names

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 663ed35..773fe8b 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -596,7 +596,7 @@ def _parse_unary_expression(expr_text):
 # BareScript expression regex
 _R_EXPR_BINARY_OP = re.compile(r'^\s*(\*\*|\*|\/|%|\+|-|<=|<|>=|>|==|!=|&&|\|\|)')
 _R_EXPR_UNARY_OP = re.compile(r'^\s*(!|-)')
-_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w+)\s*\(')
+_R_EXPR_FUNCTION_OPEN = re.compile(r'^\s*([A-Za-z_]\w*)\s*\(')
 _R_EXPR_FUNCTION_SEPARATOR = re.compile(r'^\s*,')
 _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
-- 
2.43.0


From 358db30bfb036c253c0949c6d01f35a8e52ea6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 03/33] fix: report the line and column of if, elif, while, and
 for expression errors

---
 src/bare_script/parser.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 773fe8b..73c5d74 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -125,10 +125,11 @@ def parse_script(script_text, start_line_number=1):
         match_if_begin = _R_SCRIPT_IF_BEGIN.match(line)
         if match_if_begin:
             # Add the if-then label definition
+            if_expr = _parse_match_expression(match_if_begin, 'expr', start_line_number + ix_line)
             ifthen = {
                 'jump': {
                     'label': f"__bareScriptIf{label_index}",
-                    'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_begin.group('expr'))}}
+                    'expr': {'unary': {'op': '!', 'expr': if_expr}}
                 },
                 'done': f"__bareScriptDone{label_index}",
                 'hasElse': False,
@@ -157,9 +158,10 @@ def parse_script(script_text, start_line_number=1):
 
             # Generate the next if-then jump statement
             prev_label = ifthen['jump']['label']
+            else_if_expr = _parse_match_expression(match_if_else_if, 'expr', start_line_number + ix_line)
             ifthen['jump'] = {
                 'label': f"__bareScriptIf{label_index}",
-                'expr': {'unary': {'op': '!', 'expr': parse_expression(match_if_else_if.group('expr'))}}
+                'expr': {'unary': {'op': '!', 'expr': else_if_expr}}
             }
             label_index += 1
 
@@ -213,7 +215,7 @@ def parse_script(script_text, start_line_number=1):
         match_while_begin = _R_SCRIPT_WHILE_BEGIN.match(line)
         if match_while_begin:
             # Add the while-do label (a continue can go straight to the loop label only if there's no condition to re-test)
-            while_expr = parse_expression(match_while_begin.group('expr'))
+            while_expr = _parse_match_expression(match_while_begin, 'expr', start_line_number + ix_line)
             is_forever = while_expr == {'variable': 'true'}
             whiledo = {
                 'loop': f'__bareScriptLoop{label_index}',
@@ -269,8 +271,9 @@ def parse_script(script_text, start_line_number=1):
             label_index += 1
 
             # Add the for-each header statements
+            values_expr = _parse_match_expression(match_for_begin, 'values', start_line_number + ix_line)
             statements.extend([
-                {'expr': {'name': foreach['values'], 'expr': parse_expression(match_for_begin.group('values'))}},
+                {'expr': {'name': foreach['values'], 'expr': values_expr}},
                 {'expr': {
                     'name': foreach['length'],
                     'expr': {'function': {'name': 'arrayLength', 'args': [{'variable': foreach['values']}]}}
@@ -407,6 +410,14 @@ def parse_script(script_text, start_line_number=1):
     return script
 
 
+# Helper function to parse a line match group's expression - parser errors are relative to the line
+def _parse_match_expression(match, group, line_number):
+    try:
+        return parse_expression(match.group(group))
+    except BareScriptParserError as error:
+        raise BareScriptParserError(error.error, match.string, match.start(group) + error.column_number, line_number)
+
+
 # BareScript regex
 _R_SCRIPT_LINE_SPLIT = re.compile(r'\r?\n')
 _R_SCRIPT_CONTINUATION = re.compile(r'\\\s*$')
-- 
2.43.0


From f4bab79a9d593a8c157a9f278381b6c5f123e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 04/33] fix: report a function definition left open at end of
 input

---
 src/bare_script/parser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 73c5d74..9b3448d 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -34,6 +34,8 @@ def parse_script(script_text, start_line_number=1):
     # Process each line
     line_continuation = []
     function_def = None
+    function_line = None
+    function_line_number = None
     function_label_def_depth = None
     label_defs = []
     label_index = 0
@@ -88,6 +90,8 @@ def parse_script(script_text, start_line_number=1):
                 raise BareScriptParserError('Nested function definition', line, 1, start_line_number + ix_line)
 
             # Add the function definition statement
+            function_line = line
+            function_line_number = start_line_number + ix_line
             function_label_def_depth = len(label_defs)
             function_def = {
                 'function': {
@@ -401,12 +405,16 @@ def parse_script(script_text, start_line_number=1):
             raise BareScriptParserError(error.error, line, error.column_number, start_line_number + ix_line)
 
     # Dangling label definitions?
-    if label_defs:
+    if len(label_defs) > (function_label_def_depth if function_def is not None else 0):
         label_def = label_defs.pop()
         def_key = next(iter(label_def))
         def_ = label_def[def_key]
         raise BareScriptParserError(f"Missing end{def_key} statement", def_['line'], 1, def_['lineNumber'])
 
+    # Dangling function definition?
+    if function_def is not None:
+        raise BareScriptParserError('Missing endfunction statement', function_line, 1, function_line_number)
+
     return script
 
 
-- 
2.43.0


From a1ae70bfbfeb1fb11ada221fce3c03cd4d11f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:20 +0000
Subject: [PATCH 05/33] fix: report a line continuation left open at end of
 input

---
 src/bare_script/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 9b3448d..44ff23f 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -404,6 +404,11 @@ def parse_script(script_text, start_line_number=1):
         except BareScriptParserError as error:
             raise BareScriptParserError(error.error, line, error.column_number, start_line_number + ix_line)
 
+    # Dangling line continuation?
+    if line_continuation:
+        line = ' '.join(line_continuation)
+        raise BareScriptParserError('Unterminated line continuation', line, max(1, len(line)), start_line_number + ix_line)
+
     # Dangling label definitions?
     if len(label_defs) > (function_label_def_depth if function_def is not None else 0):
         label_def = label_defs.pop()
-- 
2.43.0


From 222d0b55577cf74d08620795245547a71caefcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 06/33] fix: parse string literals with backslash runs in
 linear time

---
 src/bare_script/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 44ff23f..1b772f4 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -626,9 +626,9 @@ _R_EXPR_FUNCTION_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_GROUP_OPEN = re.compile(r'^\s*\(')
 _R_EXPR_GROUP_CLOSE = re.compile(r'^\s*\)')
 _R_EXPR_NUMBER = re.compile(r'^\s*([+-]?\d+(?:\.\d*)?(?:e[+-]\d+)?)')
-_R_EXPR_STRING = re.compile(r"^\s*'((?:\\\\|\\'|[^'])*)'")
+_R_EXPR_STRING = re.compile(r"^\s*'((?:\\[\\']|\\(?![\\'])|[^'\\])*)'")
 _R_EXPR_STRING_ESCAPE = re.compile(r'\\([\\\'])')
-_R_EXPR_STRING_DOUBLE = re.compile(r'^\s*"((?:\\\\|\\"|[^"])*)"')
+_R_EXPR_STRING_DOUBLE = re.compile(r'^\s*"((?:\\[\\"]|\\(?![\\"])|[^"\\])*)"')
 _R_EXPR_STRING_DOUBLE_ESCAPE = re.compile(r'\\([\\"])')
 _R_EXPR_VARIABLE = re.compile(r'^\s*([A-Za-z_]\w*)')
 _R_EXPR_VARIABLE_EX = re.compile(r'^\s*\[\s*((?:\\\]|[^\]])+)\s*\]')
-- 
2.43.0


From 5c2b995c9258c84e36ba5f767d935ab01712d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 07/33] fix: report expressions nested too deep to parse as a
 parser error

---
 src/bare_script/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 1b772f4..9c36aae 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -477,6 +477,8 @@ def parse_expression(expr_text):
     except BareScriptParserError as error:
         column_number = len(expr_text) - len(error.line) + 1
         raise BareScriptParserError(error.error, expr_text, column_number)
+    except RecursionError:
+        raise BareScriptParserError('Expression too complex', expr_text)
 
 
 # Helper function to parse a binary operator expression chain
-- 
2.43.0


From 413930115410793c600399f93a7ef30204bb23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 08/33] fix: evaluate binary operators with out-of-range
 operands to null

---
 src/bare_script/runtime.py | 45 ++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 316f2fe..11977bf 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -267,6 +267,28 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
         # Non-short-circuiting binary operators
         right_value = evaluate_expression(expr['binary']['right'], options, locals_, builtins)
+        return _evaluate_binary(bin_op, left_value, right_value)
+
+    # Unary expression
+    if expr_key == 'unary':
+        unary_op = expr['unary']['op']
+        value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
+        if unary_op == '!':
+            return not value_boolean(value)
+        elif unary_op == '-' and isinstance(value, (int, float)):
+            return -value
+
+        # Invalid operation value
+        return None
+
+    # Expression group
+    # expr_key == 'group'
+    return evaluate_expression(expr['group'], options, locals_, builtins)
+
+
+# Evaluate a non-short-circuiting binary operator. Operands that have no result evaluate to null.
+def _evaluate_binary(bin_op, left_value, right_value):
+    try:
         if bin_op == '+':
             # number + number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
@@ -337,26 +359,15 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         else: # bin_op == '**'
             # number ** number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value ** right_value
+                power_value = left_value ** right_value
+                return power_value if not isinstance(power_value, complex) else None
 
-        # Invalid operation values
+    except Exception: # pylint: disable=broad-exception-caught
+        # Operand values out of range (e.g. division by zero)
         return None
 
-    # Unary expression
-    if expr_key == 'unary':
-        unary_op = expr['unary']['op']
-        value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
-        if unary_op == '!':
-            return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
-            return -value
-
-        # Invalid operation value
-        return None
-
-    # Expression group
-    # expr_key == 'group'
-    return evaluate_expression(expr['group'], options, locals_, builtins)
+    # Invalid operation values
+    return None
 
 
 class BareScriptRuntimeError(Exception):
-- 
2.43.0


From a53c39971233e409adaf2bbec308c708542ac6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 09/33] fix: booleans are not numbers for arithmetic operators
 and number arguments

---
 src/bare_script/runtime.py | 8 +++++++-
 src/bare_script/value.py   | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 11977bf..13e3fc8 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -275,7 +275,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         value = evaluate_expression(expr['unary']['expr'], options, locals_, builtins)
         if unary_op == '!':
             return not value_boolean(value)
-        elif unary_op == '-' and isinstance(value, (int, float)):
+        elif unary_op == '-' and isinstance(value, (int, float)) and not isinstance(value, bool):
             return -value
 
         # Invalid operation value
@@ -288,6 +288,12 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
 
 # Evaluate a non-short-circuiting binary operator. Operands that have no result evaluate to null.
 def _evaluate_binary(bin_op, left_value, right_value):
+    # Booleans are not numbers - the arithmetic operators don't support them
+    if isinstance(left_value, bool) or isinstance(right_value, bool):
+        if bin_op in ('-', '*', '/', '%', '**') or \
+           (bin_op == '+' and not isinstance(left_value, str) and not isinstance(right_value, str)):
+            return None
+
     try:
         if bin_op == '+':
             # number + number
diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 7d15158..fe38375 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -297,7 +297,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             continue
 
         # Invalid value?
-        if ((arg_type == 'number' and not isinstance(arg_value, (int, float))) or
+        if ((arg_type == 'number' and (not isinstance(arg_value, (int, float)) or isinstance(arg_value, bool))) or
             (arg_type == 'string' and not isinstance(arg_value, str)) or
             (arg_type == 'array' and not isinstance(arg_value, list)) or
             (arg_type == 'object' and not isinstance(arg_value, dict)) or
-- 
2.43.0


From 8928055065db58675f38780e13ed50c13e9e1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 10/33] fix: arithmetic gives the same result for int and float
 spellings of a number

---
 src/bare_script/runtime.py | 8 ++++----
 src/bare_script/value.py   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 13e3fc8..646cde7 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -276,7 +276,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
         if unary_op == '!':
             return not value_boolean(value)
         elif unary_op == '-' and isinstance(value, (int, float)) and not isinstance(value, bool):
-            return -value
+            return _evaluate_binary('*', -1, value)
 
         # Invalid operation value
         return None
@@ -332,7 +332,7 @@ def _evaluate_binary(bin_op, left_value, right_value):
         elif bin_op == '*':
             # number * number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value * right_value
+                return float(left_value) * float(right_value)
 
         elif bin_op == '/':
             # number / number
@@ -360,12 +360,12 @@ def _evaluate_binary(bin_op, left_value, right_value):
         elif bin_op == '%':
             # number % number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                return left_value % right_value
+                return float(left_value) % float(right_value)
 
         else: # bin_op == '**'
             # number ** number
             if isinstance(left_value, (int, float)) and isinstance(right_value, (int, float)):
-                power_value = left_value ** right_value
+                power_value = float(left_value) ** float(right_value)
                 return power_value if not isinstance(power_value, complex) else None
 
     except Exception: # pylint: disable=broad-exception-caught
diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index fe38375..4283425 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -440,7 +440,7 @@ def value_round_number(value, digits):
     :rtype: float
     """
 
-    multiplier = 10 ** digits
+    multiplier = 10 ** int(digits)
     return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
 
 
-- 
2.43.0


From 26364f45f04bb92091c336a1189bd656b0b400d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:51 +0000
Subject: [PATCH 11/33] fix: arraySet accepts an index held as a float

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 00eef30..9019870 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -266,7 +266,7 @@ def _array_set(args, unused_options):
     if index >= len(array):
         raise ValueArgsError('index', index)
 
-    array[index] = value
+    array[int(index)] = value
     return value
 
 _ARRAY_SET_ARGS = value_args_model([
-- 
2.43.0


From 681b64076a97ed83c5c036cbc595630db2c98f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 12/33] fix: dataTop accepts a count held as a float

---
 src/bare_script/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 40356d2..27a56fe 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -471,7 +471,7 @@ def top_data(data, count, category_fields=None):
     data_top = []
     for category_key in category_order:
         category_key_rows = category_rows[category_key]
-        for ix_row in range(min(count, len(category_key_rows))):
+        for ix_row in range(min(int(count), len(category_key_rows))):
             data_top.append(category_key_rows[ix_row])
 
     return data_top
-- 
2.43.0


From 33e1ce2c5127fc2f3ad16ce0c49ba73b47fbfc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 13/33] fix: jsonStringify keeps string contents that look like
 the fraction of a number

---
 src/bare_script/value.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 4283425..c287fd7 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -113,8 +113,7 @@ def value_json(value, indent=None):
         result = _JSONEncoder(allow_nan=False, indent=indent, separators=(',', ': '), sort_keys=True).encode(value)
     else:
         result = _JSON_ENCODER_DEFAULT.encode(value)
-    result = _R_VALUE_JSON_NUMBER_CLEANUP.sub(r'', result)
-    return _R_VALUE_JSON_NUMBER_CLEANUP2.sub(r'\1', result)
+    return _R_VALUE_JSON_NUMBER_CLEANUP.sub(_value_json_number_cleanup, result)
 
 
 class _JSONEncoder(json.JSONEncoder):
@@ -130,8 +129,13 @@ class _JSONEncoder(json.JSONEncoder):
 
 _JSON_ENCODER_DEFAULT = _JSONEncoder(allow_nan=False, separators=(',', ':'), sort_keys=True)
 
-_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'\.0*$', re.MULTILINE)
-_R_VALUE_JSON_NUMBER_CLEANUP2 = re.compile(r'\.0*([,}\]])')
+# Match a string (unchanged) or a number with a decimal point
+_R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'"(?:[^"\\]|\\.)*"|-?\d+\.\d+(?:e[+-]?\d+)?')
+
+
+def _value_json_number_cleanup(match):
+    text = match[0]
+    return text if text.startswith('"') else R_NUMBER_CLEANUP.sub('', text)
 
 
 def value_boolean(value):
-- 
2.43.0


From fd788edb1335b68628a70a5a5db9a7e086611c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 14/33] fix: integral numbers print without a decimal point

---
 src/bare_script/value.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index c287fd7..152332b 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -67,7 +67,7 @@ def value_string(value):
     elif isinstance(value, int):
         return str(value)
     elif isinstance(value, float):
-        return R_NUMBER_CLEANUP.sub('', str(value))
+        return _float_string(value)
     elif isinstance(value, datetime.date):
         iso = value_normalize_datetime(value).astimezone().isoformat()
         match_microsecond = _R_DATETIME_MICROSECOND.search(iso)
@@ -93,6 +93,12 @@ def value_string(value):
     return '<unknown>'
 
 
+# Integral numbers have no decimal point, even when their mantissa has a fraction (e.g. 1.5e+16)
+def _float_string(value):
+    text = R_NUMBER_CLEANUP.sub('', str(value))
+    return f'{value:.0f}' if '.' in text and value.is_integer() else text
+
+
 R_NUMBER_CLEANUP = re.compile(r'\.0*$')
 _R_DATETIME_MICROSECOND = re.compile(r'\.(\d{6})')
 _R_DATETIME_TZ_CLEANUP = re.compile(r'([+-]\d\d:\d\d):\d\d$')
@@ -135,7 +141,7 @@ _R_VALUE_JSON_NUMBER_CLEANUP = re.compile(r'"(?:[^"\\]|\\.)*"|-?\d+\.\d+(?:e[+-]
 
 def _value_json_number_cleanup(match):
     text = match[0]
-    return text if text.startswith('"') else R_NUMBER_CLEANUP.sub('', text)
+    return text if text.startswith('"') else _float_string(float(text))
 
 
 def value_boolean(value):
-- 
2.43.0


From 29072c94b9a976d1b5632c265778275e82b7a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 15/33] fix: number parsing rejects digit-group underscores

---
 src/bare_script/value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 152332b..2b0873e 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -465,7 +465,7 @@ def value_parse_number(text):
     """
 
     try:
-        value = float(text)
+        value = float(text) if '_' not in text else math.nan
         if math.isnan(value) or math.isinf(value):
             return None
         return value
@@ -486,7 +486,7 @@ def value_parse_integer(text, radix=10):
     """
 
     try:
-        return int(text, radix)
+        return int(text, radix) if '_' not in text else None
     except ValueError:
         return None
 
-- 
2.43.0


From c80246f6f62ccc61370a7562696f041672615e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 16/33] fix: text that is not a valid ISO date or datetime
 parses to null

---
 src/bare_script/value.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 2b0873e..5efe5cb 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -506,6 +506,14 @@ def value_parse_datetime(text):
     :rtype: datetime.datetime or None
     """
 
+    try:
+        return _parse_datetime(text)
+    except (OverflowError, ValueError):
+        # Not a valid date or time (e.g. 2024-02-30)
+        return None
+
+
+def _parse_datetime(text):
     m_date = _R_DATE.match(text)
     if m_date is not None:
         year = int(m_date.group('year'))
@@ -518,8 +526,8 @@ def value_parse_datetime(text):
 
     return None
 
-_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})$')
-_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})$')
+_R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z', re.ASCII)
+_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})\Z', re.ASCII)
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
-- 
2.43.0


From de4c21f27e1373f752a783a8e6b5d3a7c91c036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 17/33] fix: invalid arguments with no integer value or JSON
 text return the documented failure value

---
 src/bare_script/value.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 5efe5cb..891e583 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -322,7 +322,7 @@ def value_args_validate(fn_args, args, error_return_value=None):
             arg_lte = fn_arg.get('lte')
             arg_gt = fn_arg.get('gt')
             arg_gte = fn_arg.get('gte')
-            if ((fn_arg.get('integer') and int(arg_value) != arg_value) or
+            if ((fn_arg.get('integer') and isinstance(arg_value, float) and not arg_value.is_integer()) or
                 (arg_lt is not None and not (arg_value < arg_lt)) or
                 (arg_lte is not None and not (arg_value <= arg_lte)) or
                 (arg_gt is not None and not (arg_value > arg_gt)) or
@@ -355,7 +355,11 @@ class ValueArgsError(Exception):
         if arg_name is None:
             message = f'Too many arguments ({value_json(arg_value)})'
         else:
-            message = f'Invalid "{arg_name}" argument value, {value_json(arg_value)}'
+            try:
+                message = f'Invalid "{arg_name}" argument value, {value_json(arg_value)}'
+            except Exception: # pylint: disable=broad-exception-caught
+                # The argument value has no JSON text (e.g. a circular array)
+                message = f'Invalid "{arg_name}" argument value'
         super().__init__(message)
         self.return_value = return_value
 
-- 
2.43.0


From fe5e8fa54f0d1a659029dcb5b488f79195ee88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 18/33] fix: lastArgArray false does not collect arguments

---
 src/bare_script/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 646cde7..f0948a9 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -154,7 +154,7 @@ def _script_function(function, args, options):
     if func_args is not None:
         args_length = len(args)
         func_args_length = len(func_args)
-        ix_arg_last = function.get('lastArgArray', None) and (func_args_length - 1)
+        ix_arg_last = (func_args_length - 1) if function.get('lastArgArray') else None
         for ix_arg in range(func_args_length):
             arg_name = func_args[ix_arg]
             if ix_arg < args_length:
-- 
2.43.0


From 900c4d4bc79c7b21fdaab1e105a088c4c64d2744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 19/33] fix: a function call without arguments passes an empty
 argument array

---
 src/bare_script/runtime.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index f0948a9..2c6cec6 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -222,8 +222,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             return evaluate_expression(result_expr, options, locals_, builtins) if result_expr else None
 
         # Compute the function arguments
-        func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function']['args']] \
-            if 'args' in expr['function'] else None
+        func_args = [evaluate_expression(arg, options, locals_, builtins) for arg in expr['function'].get('args', ())]
 
         # Global/local function?
         if locals_ is not None and func_name in locals_:
-- 
2.43.0


From 3bb476d28f80f47845f2a730f87edeebaecd5c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 20/33] fix: statements of included scripts and data expression
 callbacks count against the statement budget

---
 src/bare_script/data.py    | 19 ++++++++++++++-----
 src/bare_script/runtime.py |  5 ++++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index 27a56fe..e2868ec 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -17,10 +17,19 @@ from .value import value_boolean, value_compare, value_json, value_parse_datetim
 
 
 # Helper to dynamically import evaluate_expression to avoid the circular dependency
-def _import_evaluate_expression():
+def _import_evaluate_expression(options):
     if not _EVALUATE_EXPRESSION:
         _EVALUATE_EXPRESSION.append(importlib.import_module('bare_script.runtime').evaluate_expression)
-    return _EVALUATE_EXPRESSION[0]
+    return functools.partial(_evaluate_expression, options)
+
+
+# Evaluate a data expression - statements run under a copy of the options count against the options' statement count
+def _evaluate_expression(options, expr, eval_options, row):
+    try:
+        return _EVALUATE_EXPRESSION[0](expr, eval_options, row)
+    finally:
+        if options is not None and 'statementCount' in options:
+            options['statementCount'] = eval_options['statementCount']
 
 _EVALUATE_EXPRESSION = []
 
@@ -157,7 +166,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
+    evaluate_expression = _import_evaluate_expression(options)
 
     # Compute the map of row field name to joined row field name
     left_names = {}
@@ -237,7 +246,7 @@ def add_calculated_field(data, field_name, expr, variables=None, options=None):
     :rtype: list[dict]
     """
 
-    evaluate_expression = _import_evaluate_expression()
+    evaluate_expression = _import_evaluate_expression(options)
 
     # Parse the calculation expression
     calc_expr = parse_expression(expr)
@@ -275,7 +284,7 @@ def filter_data(data, expr, variables=None, options=None):
     """
 
     result = []
-    evaluate_expression = _import_evaluate_expression()
+    evaluate_expression = _import_evaluate_expression(options)
 
     # Parse the filter expression
     filter_expr = parse_expression(expr)
diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 2c6cec6..51ab34c 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -139,7 +139,10 @@ def _execute_script_helper(statements, options, locals_):
                 # Execute the include script
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
-                _execute_script_helper(script['statements'], include_options, None)
+                try:
+                    _execute_script_helper(script['statements'], include_options, None)
+                finally:
+                    options['statementCount'] = include_options['statementCount']
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0


From e790e2a34ed806e1ac44307ce3edad5d39532391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 21/33] fix: includes in a function resolve relative to the
 file that defines the function

---
 src/bare_script/runtime.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 51ab34c..7aea4e4 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -41,10 +41,11 @@ def execute_script(script, options=None):
 
     # Execute the script
     options['statementCount'] = 0
-    return _execute_script_helper(script['statements'], options, None)
+    return _execute_script_helper(script['statements'], options, None, options.get('urlFn'))
 
 
-def _execute_script_helper(statements, options, locals_):
+# The URL function (url_fn) resolves the include statements of the file that contains the statements
+def _execute_script_helper(statements, options, locals_, url_fn):
     globals_ = options['globals']
 
     # Iterate each script statement
@@ -96,14 +97,13 @@ def _execute_script_helper(statements, options, locals_):
 
         # Function?
         elif statement_key == 'function':
-            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'])
+            globals_[statement['function']['name']] = functools.partial(_script_function, statement['function'], url_fn)
 
         # Include?
         elif statement_key == 'include':
             system_prefix = options.get('systemPrefix')
             fetch_fn = options.get('fetchFn')
             log_fn = options.get('logFn')
-            url_fn = options.get('urlFn')
             for include in statement['include']['includes']:
                 url = include['url']
 
@@ -140,7 +140,7 @@ def _execute_script_helper(statements, options, locals_):
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
                 try:
-                    _execute_script_helper(script['statements'], include_options, None)
+                    _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                 finally:
                     options['statementCount'] = include_options['statementCount']
 
@@ -151,7 +151,7 @@ def _execute_script_helper(statements, options, locals_):
 
 
 # Runtime script function implementation
-def _script_function(function, args, options):
+def _script_function(function, url_fn, args, options):
     func_locals = {}
     func_args = function.get('args')
     if func_args is not None:
@@ -164,7 +164,7 @@ def _script_function(function, args, options):
                 func_locals[arg_name] = args[ix_arg] if ix_arg != ix_arg_last else args[ix_arg:]
             else:
                 func_locals[arg_name] = [] if ix_arg == ix_arg_last else None
-    return _execute_script_helper(function['statements'], options, func_locals)
+    return _execute_script_helper(function['statements'], options, func_locals, url_fn)
 
 
 def evaluate_expression(expr, options=None, locals_=None, builtins=True):
-- 
2.43.0


From ff194e77d00ae875f9130207de5c678dba426da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:49 +0000
Subject: [PATCH 22/33] fix: the parser error of an include in a function is
 not swallowed by the function call

---
 src/bare_script/runtime.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index 7aea4e4..dca8339 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -125,7 +125,7 @@ def _execute_script_helper(statements, options, locals_, url_fn):
                 try:
                     script = parse_script(script_text)
                 except BareScriptParserError as exc:
-                    raise BareScriptParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
+                    raise _IncludeParserError(exc.error, exc.line, exc.column_number, exc.line_number, f'Included from "{url}"')
 
                 # Run the bare-script linter?
                 if log_fn is not None and options.get('debug'):
@@ -238,7 +238,7 @@ def evaluate_expression(expr, options=None, locals_=None, builtins=True):
             # Call the function
             try:
                 return func_value(func_args, options)
-            except BareScriptRuntimeError:
+            except (BareScriptRuntimeError, _IncludeParserError):
                 raise
             except Exception as error: # pylint: disable=broad-exception-caught
                 # Log and return null
@@ -388,3 +388,9 @@ class BareScriptRuntimeError(Exception):
 
     def __init__(self, message):
         super().__init__(message)
+
+
+# An included script's parser error. Unlike the parser error of a library function's expression argument,
+# it is not contained by function calls.
+class _IncludeParserError(BareScriptParserError):
+    pass
-- 
2.43.0


From 88556021deffa0ac608835efa2e0299eb65a63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 23/33] fix: datetimeMillisecond is always less than 1000

---
 src/bare_script/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 9019870..02e22fd 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -573,7 +573,7 @@ _DATETIMEISO_PARSE_ARGS = value_args_model([
 # $return: The millisecond
 def _datetime_millisecond(args, unused_options):
     datetime_, = value_args_validate(_DATETIME_MILLISECOND_ARGS, args)
-    return int(value_round_number(value_normalize_datetime(datetime_).microsecond / 1000, 0))
+    return value_normalize_datetime(datetime_).microsecond // 1000
 
 _DATETIME_MILLISECOND_ARGS = value_args_model([
     {'name': 'datetime', 'type': 'datetime'}
-- 
2.43.0


From e7292540b11faaa3bb1cfacc541cebc1477a8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 24/33] fix: diffLines returns the Identical blocks

---
 src/bare_script/include/diff.bare | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/include/diff.bare b/src/bare_script/include/diff.bare
index 39ba415..61e1b85 100644
--- a/src/bare_script/include/diff.bare
+++ b/src/bare_script/include/diff.bare
@@ -99,7 +99,7 @@ function diffLines(left, right):
             ixRight = ixRight + 1
         endwhile
         if identicalLines:
-            arrayPush(objectdiffs, objectNew('type', 'Identical', 'lines', identicalLines))
+            arrayPush(diffs, objectNew('type', 'Identical', 'lines', identicalLines))
             continue
         endif
 
-- 
2.43.0


From 047f22d52a9e2b1918efd5b6fa73321788fd3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 25/33] fix: dataParseCSV keeps quoted line breaks and Unicode
 line separators in fields

---
 src/bare_script/library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 02e22fd..dbb5735 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -9,6 +9,7 @@ import calendar
 import csv
 import datetime
 import functools
+import io
 import json
 import math
 import random
@@ -437,7 +438,7 @@ def _data_parse_csv(args, unused_options):
             continue
         if value_type(arg) != 'string':
             return None
-        lines.extend(arg.splitlines())
+        lines.extend(io.StringIO(arg, newline=''))
 
     # Parse the CSV
     data = list(csv.DictReader(lines, skipinitialspace=True))
-- 
2.43.0


From 7acecc5cbd68285e2bc074ec7afe30e446cea83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 26/33] fix: dataParseCSV ignores surplus values instead of
 adding a null-named field

---
 src/bare_script/library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index dbb5735..045b706 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -443,6 +443,10 @@ def _data_parse_csv(args, unused_options):
     # Parse the CSV
     data = list(csv.DictReader(lines, skipinitialspace=True))
 
+    # Ignore any values that have no field
+    for row in data:
+        row.pop(None, None)
+
     # Validate the data (as CSV)
     validate_data(data, True)
     return data
-- 
2.43.0


From fcc88afbff688e774facfee94bc19efbd4f2f14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 27/33] fix: data joins and groupings key on values instead of
 their JSON text

---
 src/bare_script/data.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/bare_script/data.py b/src/bare_script/data.py
index e2868ec..58a1202 100644
--- a/src/bare_script/data.py
+++ b/src/bare_script/data.py
@@ -13,7 +13,8 @@ import statistics
 from schema_markdown import parse_schema_markdown, validate_type
 
 from .parser import parse_expression
-from .value import value_boolean, value_compare, value_json, value_parse_datetime, value_parse_number
+from .value import value_boolean, value_compare, value_json, value_normalize_datetime, value_parse_datetime, \
+    value_parse_number, value_type
 
 
 # Helper to dynamically import evaluate_expression to avoid the circular dependency
@@ -34,6 +35,20 @@ def _evaluate_expression(options, expr, eval_options, row):
 _EVALUATE_EXPRESSION = []
 
 
+# Helper to compute a value's dictionary key - the keys of two values are equal if, and only if, the values compare equal
+def _value_key(value):
+    type_ = value_type(value)
+    if type_ in ('null', 'boolean', 'number', 'string'):
+        return (type_, value)
+    elif type_ == 'datetime':
+        return (type_, value_normalize_datetime(value))
+    elif type_ == 'array':
+        return (type_, tuple(_value_key(item) for item in value))
+    elif type_ == 'object':
+        return (type_, tuple((key, _value_key(value[key])) for key in sorted(value)))
+    return (type_,)
+
+
 def validate_data(data, csv=False):
     """
     Determine data field types and parse/validate field values
@@ -207,7 +222,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Bucket the right rows by the right expression value
     right_category_rows = {}
     for right_row in right_data:
-        category_key = value_json(evaluate_expression(right_expression, eval_options, right_row))
+        category_key = _value_key(evaluate_expression(right_expression, eval_options, right_row))
         if category_key not in right_category_rows:
             right_category_rows[category_key] = []
         right_category_rows[category_key].append(right_row)
@@ -215,7 +230,7 @@ def join_data(left_data, right_data, join_expr, right_expr=None, is_left_join=Fa
     # Join the left with the right
     data = []
     for left_row in left_data:
-        category_key = value_json(evaluate_expression(left_expression, eval_options, left_row))
+        category_key = _value_key(evaluate_expression(left_expression, eval_options, left_row))
         if category_key in right_category_rows:
             for right_row in right_category_rows[category_key]:
                 join_row = dict(left_row)
@@ -329,7 +344,7 @@ def aggregate_data(data, aggregation):
         category_values = [row.get(category) for category in categories] if categories is not None else None
 
         # Get or create the aggregate row
-        row_key = value_json(category_values) if category_values is not None else ''
+        row_key = _value_key(category_values) if category_values is not None else ''
         if row_key in category_rows:
             aggregate_row = category_rows[row_key]
         else:
@@ -470,7 +485,7 @@ def top_data(data, count, category_fields=None):
     category_rows = {}
     category_order = []
     for row in data:
-        category_key = '' if category_fields is None else value_json([row.get(field) for field in category_fields])
+        category_key = '' if category_fields is None else _value_key([row.get(field) for field in category_fields])
         if category_key not in category_rows:
             category_rows[category_key] = []
             category_order.append(category_key)
-- 
2.43.0


From ab4aecf59b2e813baed954855b5ebff39a75b2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 28/33] fix: lint checks functions nested in function bodies

---
 src/bare_script/model.py | 162 ++++++++++++++++++++++-----------------
 1 file changed, 90 insertions(+), 72 deletions(-)

diff --git a/src/bare_script/model.py b/src/bare_script/model.py
index ca872d9..790a740 100644
--- a/src/bare_script/model.py
+++ b/src/bare_script/model.py
@@ -288,78 +288,7 @@ def lint_script(script):
             else:
                 functions_defined[function_name] = ix_statement
 
-            # Variable used before assignment?
-            fn_var_assigns = {}
-            fn_var_uses = {}
-            args = statement['function'].get('args')
-            _get_variable_assignments_and_uses(statement['function']['statements'], fn_var_assigns, fn_var_uses)
-            for var_name in sorted(fn_var_assigns.keys()):
-                # Ignore re-assigned function arguments
-                if args is not None and var_name in args:
-                    continue
-                if var_name in fn_var_uses and fn_var_uses[var_name] <= fn_var_assigns[var_name]:
-                    warnings.append(
-                        f'Variable "{var_name}" of function "{function_name}" used (index {fn_var_uses[var_name]}) ' +
-                            f'before assignment (index {fn_var_assigns[var_name]})'
-                    )
-
-            # Unused variables?
-            for var_name in sorted(fn_var_assigns.keys()):
-                if var_name not in fn_var_uses:
-                    warnings.append(
-                        f'Unused variable "{var_name}" defined in function "{function_name}" (index {fn_var_assigns[var_name]})'
-                    )
-
-            # Function argument checks
-            if args is not None:
-                args_defined = set()
-                for arg in args:
-                    # Duplicate argument?
-                    if arg in args_defined:
-                        warnings.append(f'Duplicate argument "{arg}" of function "{function_name}" (index {ix_statement})')
-                    else:
-                        args_defined.add(arg)
-
-                        # Unused argument?
-                        if arg not in fn_var_uses:
-                            warnings.append(f'Unused argument "{arg}" of function "{function_name}" (index {ix_statement})')
-
-            # Iterate function statements
-            fn_labels_defined = {}
-            fn_labels_used = {}
-            for ix_fn_statement, fn_statement in enumerate(statement['function']['statements']):
-                fn_statement_key = next(iter(fn_statement.keys()))
-
-                # Function expression statement checks
-                if fn_statement_key == 'expr':
-                    # Pointless function expression statement?
-                    if 'name' not in fn_statement['expr'] and _is_pointless_expression(fn_statement['expr']['expr']):
-                        warnings.append(f'Pointless statement in function "{function_name}" (index {ix_fn_statement})')
-
-                # Function label statement checks
-                elif fn_statement_key == 'label':
-                    # Label redefinition?
-                    fn_statement_label = fn_statement['label']
-                    if fn_statement_label in fn_labels_defined:
-                        warnings.append(
-                            f'Redefinition of label "{fn_statement_label}" in function "{function_name}" (index {ix_fn_statement})'
-                        )
-                    else:
-                        fn_labels_defined[fn_statement_label] = ix_fn_statement
-
-                # Function jump statement checks
-                elif fn_statement_key == 'jump':
-                    fn_labels_used[fn_statement['jump']['label']] = ix_fn_statement
-
-            # Unused function labels?
-            for label in sorted(fn_labels_defined.keys()):
-                if label not in fn_labels_used:
-                    warnings.append(f'Unused label "{label}" in function "{function_name}" (index {fn_labels_defined[label]})')
-
-            # Unknown function labels?
-            for label in sorted(fn_labels_used.keys()):
-                if label not in fn_labels_defined:
-                    warnings.append(f'Unknown label "{label}" in function "{function_name}" (index {fn_labels_used[label]})')
+            _lint_function(warnings, statement['function'], ix_statement)
 
         # Global expression statement checks
         elif statement_key == 'expr':
@@ -393,6 +322,95 @@ def lint_script(script):
     return warnings
 
 
+# Helper function to lint a function
+def _lint_function(warnings, function, ix_statement):
+    function_name = function['name']
+
+    # Variable used before assignment?
+    fn_var_assigns = {}
+    fn_var_uses = {}
+    args = function.get('args')
+    _get_variable_assignments_and_uses(function['statements'], fn_var_assigns, fn_var_uses)
+    for var_name in sorted(fn_var_assigns.keys()):
+        # Ignore re-assigned function arguments
+        if args is not None and var_name in args:
+            continue
+        if var_name in fn_var_uses and fn_var_uses[var_name] <= fn_var_assigns[var_name]:
+            warnings.append(
+                f'Variable "{var_name}" of function "{function_name}" used (index {fn_var_uses[var_name]}) ' +
+                    f'before assignment (index {fn_var_assigns[var_name]})'
+            )
+
+    # Unused variables?
+    for var_name in sorted(fn_var_assigns.keys()):
+        if var_name not in fn_var_uses:
+            warnings.append(
+                f'Unused variable "{var_name}" defined in function "{function_name}" (index {fn_var_assigns[var_name]})'
+            )
+
+    # Function argument checks
+    if args is not None:
+        args_defined = set()
+        for arg in args:
+            # Duplicate argument?
+            if arg in args_defined:
+                warnings.append(f'Duplicate argument "{arg}" of function "{function_name}" (index {ix_statement})')
+            else:
+                args_defined.add(arg)
+
+                # Unused argument?
+                if arg not in fn_var_uses:
+                    warnings.append(f'Unused argument "{arg}" of function "{function_name}" (index {ix_statement})')
+
+    # Iterate function statements
+    fn_functions_defined = set()
+    fn_labels_defined = {}
+    fn_labels_used = {}
+    for ix_fn_statement, fn_statement in enumerate(function['statements']):
+        fn_statement_key = next(iter(fn_statement.keys()))
+
+        # Function expression statement checks
+        if fn_statement_key == 'expr':
+            # Pointless function expression statement?
+            if 'name' not in fn_statement['expr'] and _is_pointless_expression(fn_statement['expr']['expr']):
+                warnings.append(f'Pointless statement in function "{function_name}" (index {ix_fn_statement})')
+
+        # Nested function definition checks
+        elif fn_statement_key == 'function':
+            # Function redefinition?
+            fn_function_name = fn_statement['function']['name']
+            if fn_function_name in fn_functions_defined:
+                warnings.append(f'Redefinition of function "{fn_function_name}" in function "{function_name}" (index {ix_fn_statement})')
+            else:
+                fn_functions_defined.add(fn_function_name)
+            _lint_function(warnings, fn_statement['function'], ix_fn_statement)
+
+        # Function label statement checks
+        elif fn_statement_key == 'label':
+            # Label redefinition?
+            fn_statement_label = fn_statement['label']
+            if fn_statement_label in fn_labels_defined:
+                warnings.append(
+                    f'Redefinition of label "{fn_statement_label}" in function "{function_name}" (index {ix_fn_statement})'
+                )
+            else:
+                fn_labels_defined[fn_statement_label] = ix_fn_statement
+
+        # Function jump statement checks
+        elif fn_statement_key == 'jump':
+            fn_labels_used[fn_statement['jump']['label']] = ix_fn_statement
+
+    # Unused function labels?
+    for label in sorted(fn_labels_defined.keys()):
+        if label not in fn_labels_used:
+            warnings.append(f'Unused label "{label}" in function "{function_name}" (index {fn_labels_defined[label]})')
+
+    # Unknown function labels?
+    for label in sorted(fn_labels_used.keys()):
+        if label not in fn_labels_defined:
+            warnings.append(f'Unknown label "{label}" in function "{function_name}" (index {fn_labels_used[label]})')
+
+
 # Helper function to determine if an expression statement's expression is pointless
 def _is_pointless_expression(expr):
     expr_key = next(iter(expr.keys()))
-- 
2.43.0


From 2ed9e2b76c419a92906b0ff0154c3f9a26e0cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:10 +0000
Subject: [PATCH 29/33] fix: rounding to hundreds of digits has no result
 instead of never finishing

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 891e583..4c46d8c 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -454,7 +454,7 @@ def value_round_number(value, digits):
     :rtype: float
     """
 
-    multiplier = 10 ** int(digits)
+    multiplier = 10.0 ** int(digits)
     return int(value * multiplier + (0.5 if value >= 0 else -0.5)) / multiplier
 
 
-- 
2.43.0


From 0453e91b5c78859f778914f9a1118539da389a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 30/33] fix: datetimeNew fails for components beyond the
 calendar instead of never finishing

---
 src/bare_script/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bare_script/library.py b/src/bare_script/library.py
index 045b706..3703f77 100644
--- a/src/bare_script/library.py
+++ b/src/bare_script/library.py
@@ -659,14 +659,14 @@ def _datetime_new(args, unused_options):
 
     # Adjust day
     if day < 1:
-        while day < 1:
+        while day < 1 <= year:
             year = year if month != 1 else year - 1
             month = month - 1 if month != 1 else 12
             _, month_days = calendar.monthrange(int(year), int(month))
             day += month_days
     elif day > 28:
         _, month_days = calendar.monthrange(int(year), int(month))
-        while day > month_days:
+        while day > month_days and year <= 9999:
             day -= month_days
             year = year if month != 12 else year + 1
             month = month + 1 if month != 12 else 1
-- 
2.43.0


From 941bc416dbdb6867bd057b7cf9fdc4eb339fac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:52 +0000
Subject: [PATCH 31/33] fix: a return statement without a value accepts
 trailing whitespace

---
 src/bare_script/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/parser.py b/src/bare_script/parser.py
index 9c36aae..f77f680 100644
--- a/src/bare_script/parser.py
+++ b/src/bare_script/parser.py
@@ -444,7 +444,7 @@ _R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'\s*,\s*')
 _R_SCRIPT_FUNCTION_END = re.compile(r'^\s*endfunction\s*$')
 _R_SCRIPT_LABEL = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*:\s*$')
 _R_SCRIPT_JUMP = re.compile(r'^(?P<jump>\s*(?:jump|jumpif\s*\((?P<expr>.+)\)))\s+(?P<name>[A-Za-z_]\w*)\s*$')
-_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>.+))?)\s*$')
+_R_SCRIPT_RETURN = re.compile(r'^(?P<return>\s*return(?:\s+(?P<expr>\S.*))?)\s*$')
 _R_SCRIPT_INCLUDE = re.compile(r'^\s*include\s+(?P<delim>\')(?P<url>(?:\\\'|[^\'])*)\'\s*$')
 _R_SCRIPT_INCLUDE_SYSTEM = re.compile(r'^\s*include\s+(?P<delim><)(?P<url>[^>]*)>\s*$')
 _R_SCRIPT_IF_BEGIN = re.compile(r'^\s*if\s+(?P<expr>.+)\s*:\s*$')
-- 
2.43.0


From 33c8d394f8efec0243a7f189e3af0edbf7de63a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:30 +0000
Subject: [PATCH 32/33] fix: an ISO datetime with offset minutes above 59
 parses to null

---
 src/bare_script/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bare_script/value.py b/src/bare_script/value.py
index 4c46d8c..c74ab88 100644
--- a/src/bare_script/value.py
+++ b/src/bare_script/value.py
@@ -531,7 +531,7 @@ def _parse_datetime(text):
     return None
 
 _R_DATE = re.compile(r'^(?P<year>\d{4})-(?P<month>\d{2})-(?P<day>\d{2})\Z', re.ASCII)
-_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:\d{2})\Z', re.ASCII)
+_R_DATETIME = re.compile(r'^\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:\.\d{1,6})?(?:Z|[+-]\d{2}:[0-5]\d)\Z', re.ASCII)
 _R_DATETIME_ZULU = re.compile(r'Z$')
 
 
-- 
2.43.0


From ae2b8a38e0e1af139e2c2f0ba6710697b7ecd67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:34 +0000
Subject: [PATCH 33/33] fix: for-loops of an included script do not disturb the
 running for-loops

---
 src/bare_script/runtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bare_script/runtime.py b/src/bare_script/runtime.py
index dca8339..fafb279 100644
--- a/src/bare_script/runtime.py
+++ b/src/bare_script/runtime.py
@@ -136,13 +136,15 @@ def _execute_script_helper(statements, options, locals_, url_fn):
                         for warning in warnings:
                             log_fn(f'BareScript:     {warning}')
 
-                # Execute the include script
+                # Execute the include script - its global for-loops must not disturb the running for-loops' variables
                 include_options = options.copy()
                 include_options['urlFn'] = functools.partial(url_file_relative, url)
+                loop_vars = {name: value for name, value in globals_.items() if name.startswith('__bareScript')}
                 try:
                     _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])
                 finally:
                     options['statementCount'] = include_options['statementCount']
+                globals_.update(loop_vars)
 
         # Increment the statement counter
         ix_statement += 1
-- 
2.43.0

