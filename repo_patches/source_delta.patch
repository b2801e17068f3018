From d465a0131364e7c16f927b8543671ff99780a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 001/100] fix: escape characters that are illegal or not
 preserved in XML

Control characters, U+FFFE/U+FFFF, tabs and carriage returns in attribute
values, and U+FFFE/U+FFFF in element data produced malformed XML or were
changed to spaces by any XML reader.
---
 src/xmlwriter.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/xmlwriter.rs b/src/xmlwriter.rs
index 945d96e..65e0f5c 100644
--- a/src/xmlwriter.rs
+++ b/src/xmlwriter.rs
@@ -168,7 +168,14 @@ fn match_attribute_html_char(ch: char) -> Option<&'static str> {
         '<' => Some("&lt;"),
         '>' => Some("&gt;"),
         '\n' => Some("&#xA;"),
-        _ => None,
+
+        // Literal tabs and carriage returns would be normalized to spaces by an
+        // XML reader.
+        '\t' => Some("&#x9;"),
+        '\r' => Some("&#xD;"),
+
+        // Other characters that aren't allowed in XML.
+        _ => match_non_xml_char(ch),
     }
 }
 
@@ -186,6 +193,16 @@ fn match_xml_char(ch: char) -> Option<&'static str> {
         '<' => Some("&lt;"),
         '>' => Some("&gt;"),
 
+        // Excel escapes control characters and other non-printing characters.
+        '\x0D' => Some("_x000D_"),
+        _ => match_non_xml_char(ch),
+    }
+}
+
+// Match the characters that aren't allowed in XML 1.0, even as character
+// references, and map them to the Excel escape for the character.
+fn match_non_xml_char(ch: char) -> Option<&'static str> {
+    match ch {
         // Excel escapes control characters and other non-printing characters in
         // the range '\x00' - '\x1F' with _xHHHH_.
         '\x00' => Some("_x0000_"),
@@ -201,7 +218,6 @@ fn match_xml_char(ch: char) -> Option<&'static str> {
         // No escape required for '\x0A' = '\n'
         '\x0B' => Some("_x000B_"),
         '\x0C' => Some("_x000C_"),
-        '\x0D' => Some("_x000D_"),
         '\x0E' => Some("_x000E_"),
         '\x0F' => Some("_x000F_"),
         '\x10' => Some("_x0010_"),
@@ -221,6 +237,10 @@ fn match_xml_char(ch: char) -> Option<&'static str> {
         '\x1E' => Some("_x001E_"),
         '\x1F' => Some("_x001F_"),
 
+        // The Unicode non-characters that are excluded from XML.
+        '\u{FFFE}' => Some("_xFFFE_"),
+        '\u{FFFF}' => Some("_xFFFF_"),
+
         _ => None,
     }
 }
-- 
2.43.0


From d5a9517902c12213024bc36f869225f2e8f3ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 002/100] fix: escape literal _xHHHH_ text in rich strings,
 notes and formula results

---
 src/comment.rs   |  9 ++++---
 src/worksheet.rs | 68 +++++++++++++++++++++++-------------------------
 2 files changed, 38 insertions(+), 39 deletions(-)

diff --git a/src/comment.rs b/src/comment.rs
index 353f865..45a8bfb 100644
--- a/src/comment.rs
+++ b/src/comment.rs
@@ -10,8 +10,8 @@ use std::collections::BTreeMap;
 use std::io::Cursor;
 
 use crate::xmlwriter::{
-    xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag, xml_empty_tag_only,
-    xml_end_tag, xml_start_tag, xml_start_tag_only,
+    escape_xml_escapes, xml_data_element, xml_data_element_only, xml_declaration, xml_empty_tag,
+    xml_empty_tag_only, xml_end_tag, xml_start_tag, xml_start_tag_only,
 };
 use crate::{utility, ColNum, Note, RowNum};
 
@@ -216,6 +216,9 @@ impl Comment {
             vec![]
         };
 
-        xml_data_element(&mut self.writer, "t", text, &attributes);
+        // Escape any literal text that looks like an Excel character escape.
+        let text = escape_xml_escapes(text);
+
+        xml_data_element(&mut self.writer, "t", &text, &attributes);
     }
 }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 56fdda5..97657e3 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15481,15 +15481,18 @@ impl Worksheet {
                 vec![]
             };
 
+            // Escape any literal text that looks like an Excel character escape.
+            let string = xmlwriter::escape_xml_escapes(string);
+
             // First segment doesn't require a font run for the default format.
             if format.is_default() && first_segment {
                 xml_start_tag_only(&mut styler.writer, "r");
-                xml_data_element(&mut styler.writer, "t", string, &attributes);
+                xml_data_element(&mut styler.writer, "t", &string, &attributes);
                 xml_end_tag(&mut styler.writer, "r");
             } else {
                 xml_start_tag_only(&mut styler.writer, "r");
                 styler.write_font(&format.font, false);
-                xml_data_element(&mut styler.writer, "t", string, &attributes);
+                xml_data_element(&mut styler.writer, "t", &string, &attributes);
                 xml_end_tag(&mut styler.writer, "r");
             }
             first_segment = false;
@@ -19125,25 +19128,11 @@ impl Worksheet {
         };
 
         // Get the result type attribute.
-        let result_type = if result.parse::<f64>().is_err() {
-            match result {
-                // Handle error results.
-                "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
-                | "#GETTING_DATA" => r#" t="e""#,
-
-                // Handle boolean results.
-                "TRUE" | "FALSE" => r#" t="b""#,
-
-                // Handle string results.
-                _ => r#" t="str""#,
-            }
-        } else {
-            // Handle/ignore for numeric results.
-            ""
-        };
+        let result_type = Self::formula_result_type(result);
 
         let formula = crate::xmlwriter::escape_xml_data(formula);
-        let mut result = crate::xmlwriter::escape_xml_data(result);
+        let result = crate::xmlwriter::escape_xml_escapes(result);
+        let mut result = crate::xmlwriter::escape_xml_data(&result);
 
         if result == "TRUE" {
             result = Cow::Owned("1".to_string());
@@ -19159,6 +19148,27 @@ impl Worksheet {
         .expect(XML_WRITE_ERROR);
     }
 
+    // Get the cell type attribute for a formula result.
+    fn formula_result_type(result: &str) -> &'static str {
+        // Handle/ignore for numeric results. Strings like "inf" and "nan" can
+        // be parsed as a float but aren't valid numbers in Excel.
+        if result.parse::<f64>().is_ok_and(f64::is_finite) {
+            return "";
+        }
+
+        match result {
+            // Handle error results.
+            "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
+            | "#GETTING_DATA" => r#" t="e""#,
+
+            // Handle boolean results.
+            "TRUE" | "FALSE" => r#" t="b""#,
+
+            // Handle string results.
+            _ => r#" t="str""#,
+        }
+    }
+
     // Write the <c> element for an array formula.
     #[allow(clippy::too_many_arguments)]
     fn write_array_formula_cell<W: Write>(
@@ -19180,25 +19190,11 @@ impl Worksheet {
         let cm = if is_dynamic { r#" cm="1""# } else { "" };
 
         // Get the result type attribute.
-        let result_type = if result.parse::<f64>().is_err() {
-            match result {
-                // Handle error results.
-                "#DIV/0!" | "#N/A" | "#NAME?" | "#NULL!" | "#NUM!" | "#REF!" | "#VALUE!"
-                | "#GETTING_DATA" => r#" t="e""#,
-
-                // Handle boolean results.
-                "TRUE" | "FALSE" => r#" t="b""#,
-
-                // Handle string results.
-                _ => r#" t="str""#,
-            }
-        } else {
-            // Handle/ignore for numeric results.
-            ""
-        };
+        let result_type = Self::formula_result_type(result);
 
         let formula = crate::xmlwriter::escape_xml_data(formula);
-        let mut result = crate::xmlwriter::escape_xml_data(result);
+        let result = crate::xmlwriter::escape_xml_escapes(result);
+        let mut result = crate::xmlwriter::escape_xml_data(&result);
 
         if result == "TRUE" {
             result = Cow::Owned("1".to_string());
-- 
2.43.0


From 4fe6ca61048632842addb6e1cc44ac18f349e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 003/100] fix: don't confuse plain strings that look like rich
 string markup with rich strings

---
 src/shared_strings.rs       | 14 ++++++++++----
 src/shared_strings_table.rs | 16 ++++++++++++++++
 src/worksheet.rs            | 12 +++++++++---
 3 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/shared_strings.rs b/src/shared_strings.rs
index a05b29c..7fd5c44 100644
--- a/src/shared_strings.rs
+++ b/src/shared_strings.rs
@@ -66,16 +66,22 @@ impl SharedStrings {
     fn write_sst_strings(&mut self, string_table: &Arc<Mutex<SharedStringsTable>>) {
         let string_table = string_table.lock().unwrap();
 
-        let mut insertion_order_strings = Vec::from_iter(string_table.strings.iter());
+        let plain_strings = string_table.strings.iter().map(|(s, id)| (s, id, false));
+        let rich_strings = string_table
+            .rich_strings
+            .iter()
+            .map(|(s, id)| (s, id, true));
+
+        let mut insertion_order_strings = Vec::from_iter(plain_strings.chain(rich_strings));
         insertion_order_strings.sort_by_key(|x| x.1);
         let whitespace = ['\t', '\n', ' '];
 
-        for (string, _) in insertion_order_strings {
+        for (string, _, is_rich_string) in insertion_order_strings {
             let preserve_whitespace =
                 string.starts_with(whitespace) || string.ends_with(whitespace);
 
-            // Check if the string is a rich text element.
-            if string.starts_with("<r>") && string.ends_with("</r>") {
+            // Rich strings are already stored as markup.
+            if is_rich_string {
                 xml_rich_si_element(&mut self.writer, string);
             } else {
                 xml_si_element(&mut self.writer, string, preserve_whitespace);
diff --git a/src/shared_strings_table.rs b/src/shared_strings_table.rs
index 0a23358..333282c 100644
--- a/src/shared_strings_table.rs
+++ b/src/shared_strings_table.rs
@@ -19,6 +19,10 @@ pub struct SharedStringsTable {
     pub count: u32,
     pub unique_count: u32,
     pub strings: HashMap<Arc<str>, u32>,
+
+    // Rich strings are stored as markup and are kept separate from plain
+    // strings so that a plain string can't be mistaken for a rich string.
+    pub(crate) rich_strings: HashMap<Arc<str>, u32>,
 }
 
 impl SharedStringsTable {
@@ -32,6 +36,7 @@ impl SharedStringsTable {
             count: 0,
             unique_count: 0,
             strings: HashMap::new(),
+            rich_strings: HashMap::new(),
         }
     }
 
@@ -46,6 +51,17 @@ impl SharedStringsTable {
         index
     }
 
+    // Get the index of the rich string in the Shared String table.
+    pub(crate) fn shared_rich_string_index(&mut self, key: Arc<str>) -> u32 {
+        let index = *self.rich_strings.entry(key).or_insert_with(|| {
+            let index = self.unique_count;
+            self.unique_count += 1;
+            index
+        });
+        self.count += 1;
+        index
+    }
+
     // Add a string to the Shared String table to get a consistent ordering with
     // files generated by Excel, when testing. This doesn't increment the count.
     pub(crate) fn populate_string_index(&mut self, key: Arc<str>, index: u32) {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 97657e3..7c42f1c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15139,7 +15139,7 @@ impl Worksheet {
 
         if self.has_workbook_global_sst {
             let mut string_table = self.string_table.lock().unwrap();
-            string_id = Some(string_table.shared_string_index(Arc::clone(&string)));
+            string_id = Some(string_table.shared_rich_string_index(Arc::clone(&string)));
         }
 
         let cell = CellType::RichString {
@@ -18408,12 +18408,18 @@ impl Worksheet {
                 match cell {
                     CellType::String {
                         string, string_id, ..
+                    } => {
+                        if string_id.is_none() {
+                            let string_index = string_table.shared_string_index(Arc::clone(string));
+                            *string_id = Some(string_index);
+                        }
                     }
-                    | CellType::RichString {
+                    CellType::RichString {
                         string, string_id, ..
                     } => {
                         if string_id.is_none() {
-                            let string_index = string_table.shared_string_index(Arc::clone(string));
+                            let string_index =
+                                string_table.shared_rich_string_index(Arc::clone(string));
                             *string_id = Some(string_index);
                         }
                     }
-- 
2.43.0


From 2715108a247d633b553317d0a355ed99965f68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 004/100] fix: apply the rich string length limit to the text
 and not the markup

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7c42f1c..a2318ac 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15122,7 +15122,7 @@ impl Worksheet {
         }
 
         //  Check that the string is < Excel limit of 32767 chars.
-        if string.chars().count() > MAX_STRING_LEN {
+        if raw_string.chars().count() > MAX_STRING_LEN {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
-- 
2.43.0


From 13606bf1680b4351c549a3fbebc776b225067e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 005/100] fix: don't alter quoted text or array constants in
 formulas

---
 src/formula.rs | 150 ++++++++++++++++++++++++++++---------------------
 1 file changed, 85 insertions(+), 65 deletions(-)

diff --git a/src/formula.rs b/src/formula.rs
index e396e73..968f050 100644
--- a/src/formula.rs
+++ b/src/formula.rs
@@ -750,17 +750,16 @@ impl Formula {
     /// `formula` - A string like type representing an Excel formula.
     ///
     pub fn new(formula: impl AsRef<str>) -> Formula {
-        // Remove array formula braces and the leading = if they exist.
+        // Remove array formula braces and the leading = if they exist. The
+        // closing brace is only removed if there was an opening brace since it
+        // could also be the end of an array constant.
         let mut formula = formula.as_ref();
         if let Some(stripped) = formula.strip_prefix('{') {
-            formula = stripped;
+            formula = stripped.strip_suffix('}').unwrap_or(stripped);
         }
         if let Some(stripped) = formula.strip_prefix('=') {
             formula = stripped;
         }
-        if let Some(stripped) = formula.strip_suffix('}') {
-            formula = stripped;
-        }
 
         // We need to escape future functions in a formula string. If the user
         // has already done this we simply copy the string. In both cases we
@@ -835,76 +834,59 @@ impl Formula {
     }
 
     // Prefix any "future" functions in a formula with "_xlfn.". We parse the
-    // string to avoid replacements in string literal within the formula.
+    // string to avoid replacements in quoted text within the formula.
     fn escape_formula(formula: &str) -> (String, bool) {
-        let mut start_position = 0;
-        let mut in_function = false;
-        let mut in_string_literal = false;
+        let mut quotes = QuoteState::default();
+        let mut token_start = None;
+        let mut copied_position = 0;
         let mut has_dynamic_function = false;
         let mut escaped_formula = String::with_capacity(formula.len());
 
         for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // escaping function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
+            // Skip string literals and other quoted text. We track these to
+            // avoid escaping function names in strings.
+            if quotes.is_quoted(char) {
+                token_start = None;
+                continue;
             }
 
-            // Copy the string literal.
-            if in_string_literal {
-                escaped_formula.push(char);
+            // Future function names are comprised of "A-Z", "0-9" and ".". The
+            // other characters are tracked to avoid matching the end of a
+            // longer, user defined, function name.
+            if char.is_alphanumeric() || char == '.' || char == '_' {
+                token_start = token_start.or(Some(current_position));
                 continue;
             }
 
-            // Function names are comprised of "A-Z", "0-9" and ".".
-            let is_function_char =
-                char.is_ascii_uppercase() || char.is_ascii_digit() || char == '.';
+            // If the first non function char is an opening bracket then we have
+            // found a function name.
+            if let (Some(start_position), '(') = (token_start, char) {
+                let token = &formula[start_position..current_position];
 
-            // Simple state machine where we are either accumulating possible
-            // function names in a buffer for evaluation, or copying non-function
-            // name characters.
-            if in_function {
-                if !is_function_char {
-                    let token = &formula[start_position..current_position];
+                // Check if function is an Excel "future" function.
+                if let Some(function_type) = Self::future_functions(token) {
+                    escaped_formula.push_str(&formula[copied_position..start_position]);
+                    copied_position = start_position;
 
-                    // If the first non function char is an opening bracket then we
-                    // have found a function name.
-                    if char == '(' {
-                        // Check if function is an Excel "future" function.
-                        if let Some(function_type) = Self::future_functions(token) {
-                            // Add the future function prefix.
-                            escaped_formula.push_str("_xlfn.");
-
-                            // Some functions have an additional prefix.
-                            if *function_type == 2 {
-                                escaped_formula.push_str("_xlws.");
-                            }
+                    // Add the future function prefix.
+                    escaped_formula.push_str("_xlfn.");
 
-                            // Check if the function is "dynamic".
-                            has_dynamic_function |= *function_type > 0;
-                        }
+                    // Some functions have an additional prefix.
+                    if *function_type == 2 {
+                        escaped_formula.push_str("_xlws.");
                     }
 
-                    // Copy the token, whether it is a function name or not.
-                    escaped_formula.push_str(token);
-                    escaped_formula.push(char);
-                    in_function = false;
+                    // Check if the function is "dynamic".
+                    has_dynamic_function |= *function_type > 0;
                 }
-            } else if is_function_char {
-                // Match the start of a possible function name.
-                start_position = current_position;
-                in_function = true;
-            } else {
-                escaped_formula.push(char);
             }
-        }
 
-        // Clean up any trailing buffer that wasn't a function.
-        if in_function {
-            escaped_formula.push_str(&formula[start_position..]);
+            token_start = None;
         }
 
+        // Copy the remainder of the formula.
+        escaped_formula.push_str(&formula[copied_position..]);
+
         (escaped_formula, has_dynamic_function)
     }
 
@@ -914,19 +896,14 @@ impl Formula {
     fn copy_escaped_formula(formula: &str) -> (String, bool) {
         let mut start_position = 0;
         let mut in_function = false;
-        let mut in_string_literal = false;
+        let mut quotes = QuoteState::default();
         let mut has_dynamic_function = false;
 
         for (current_position, char) in formula.char_indices() {
-            // Match the start/end of string literals. We track these to avoid
-            // matching function names in strings. In Excel a double quote in a
-            // string literal is doubled, so this will also match escapes.
-            if char == '"' {
-                in_string_literal = !in_string_literal;
-            }
-
-            // Ignore the string literal.
-            if in_string_literal {
+            // Skip string literals and other quoted text. We track these to
+            // avoid matching function names in strings.
+            if quotes.is_quoted(char) {
+                in_function = false;
                 continue;
             }
 
@@ -1191,3 +1168,46 @@ impl From<&Formula> for Formula {
         (*value).clone()
     }
 }
+
+// A state machine to track the parts of a formula that are literal text: string
+// literals, quoted sheet names and the column names in table references.
+#[derive(Default)]
+struct QuoteState {
+    quote_char: Option<char>,
+    bracket_depth: u32,
+    is_escaped: bool,
+}
+
+impl QuoteState {
+    // Check if the next character in the formula is part of quoted text. In
+    // Excel a quote character within quoted text is doubled, so the start/end
+    // matching also handles escapes.
+    fn is_quoted(&mut self, char: char) -> bool {
+        if let Some(quote_char) = self.quote_char {
+            if char == quote_char {
+                self.quote_char = None;
+            }
+            return true;
+        }
+
+        if self.bracket_depth > 0 {
+            // Special characters in column names are escaped by a single quote.
+            match char {
+                _ if self.is_escaped => self.is_escaped = false,
+                '\'' => self.is_escaped = true,
+                '[' => self.bracket_depth += 1,
+                ']' => self.bracket_depth -= 1,
+                _ => {}
+            }
+            return true;
+        }
+
+        match char {
+            '"' | '\'' => self.quote_char = Some(char),
+            '[' => self.bracket_depth = 1,
+            _ => return false,
+        }
+
+        true
+    }
+}
-- 
2.43.0


From 47c55f4e5a75d3881de7a79e687085b3bdba7232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 006/100] fix: include cells formatted by set_range_format() in
 the worksheet dimensions

---
 src/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index a2318ac..d368fd3 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10350,6 +10350,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Store any changes in the worksheet dimensions.
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Get the index of the format object.
         let xf_index = self.format_xf_index(format);
 
-- 
2.43.0


From f7d844bc5a4d6851fe15a82a512eb509ed861a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 007/100] fix: unset_hyperlink_style() should turn the
 hyperlink style off

---
 src/format.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format.rs b/src/format.rs
index 599a63b..436a666 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -2415,7 +2415,7 @@ impl Format {
 
     /// Unset the hyperlink style. Doesn't reset the other properties.
     pub fn unset_hyperlink_style(mut self) -> Format {
-        self.font.is_hyperlink = true;
+        self.font.is_hyperlink = false;
 
         self
     }
-- 
2.43.0


From 7377274fc7873715bb3635a6808bef3a11a3585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 008/100] fix: use the latest row and column formats at their
 intersection

---
 src/worksheet.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d368fd3..58acc8e 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6591,7 +6591,10 @@ impl Worksheet {
 
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
-            Some(row_options) => row_options.xf_index = xf_index,
+            Some(row_options) => {
+                row_options.xf_index = xf_index;
+                row_options.format = Some(format.clone());
+            }
             None => {
                 let row_options = RowOptions {
                     height: self.user_default_row_height,
@@ -8054,7 +8057,10 @@ impl Worksheet {
 
         // Update an existing col metadata object or create a new one.
         match self.changed_cols.get_mut(&col) {
-            Some(col_options) => col_options.xf_index = xf_index,
+            Some(col_options) => {
+                col_options.xf_index = xf_index;
+                col_options.format = Some(format.clone());
+            }
             None => {
                 let col_options = ColOptions {
                     width: DEFAULT_COL_WIDTH,
-- 
2.43.0


From 4ae17acbc231b13dacf770c87df6c2d5f92477f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 009/100] fix: a number format string takes precedence over an
 earlier or merged index

---
 src/format.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index 436a666..d90fa31 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -828,6 +828,7 @@ impl Format {
     ///
     pub fn set_num_format(mut self, num_format: impl Into<String>) -> Format {
         self.num_format = num_format.into();
+        self.num_format_index = 0;
         self
     }
 
@@ -2528,11 +2529,8 @@ impl Format {
         self.quote_prefix |= other.quote_prefix;
         self.locked &= other.locked;
 
-        if self.num_format.is_empty() {
+        if self.num_format.is_empty() && self.num_format_index == 0 {
             self.num_format.clone_from(&other.num_format);
-        }
-
-        if self.num_format_index == 0 {
             self.num_format_index = other.num_format_index;
         }
 
-- 
2.43.0


From ab345ff9a93cfe3d1356af3a6f488e092c6cf4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 010/100] fix: keep the format of formulas with dynamic
 functions

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 58acc8e..913b345 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15178,7 +15178,7 @@ impl Worksheet {
     ) -> Result<&mut Worksheet, XlsxError> {
         // Transfer to dynamic formula handling function.
         if formula.has_dynamic_function {
-            return self.store_array_formula(row, col, row, col, formula, None, true);
+            return self.store_array_formula(row, col, row, col, formula, format, true);
         }
 
         // Check row and col are in the allowed range.
-- 
2.43.0


From 0a5cfefe21e5b576b8542a641a250c4f49a656f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 011/100] fix: don't panic on truncated image data

---
 src/image.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 2f52c3a..afde55c 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -897,10 +897,10 @@ impl Image {
     fn process_image(&mut self) -> Result<(), XlsxError> {
         let data = self.data.clone();
 
-        let png_marker = &data[1..4];
+        let png_marker = data.get(1..4).unwrap_or_default();
         let jpg_marker = unpack_u16_from_be_bytes(&data, 0);
-        let bmp_marker = &data[0..2];
-        let gif_marker = &data[0..4];
+        let bmp_marker = data.get(0..2).unwrap_or_default();
+        let gif_marker = data.get(0..4).unwrap_or_default();
 
         if png_marker == "PNG".as_bytes() {
             self.process_png(&data);
@@ -942,7 +942,7 @@ impl Image {
         // Search through the image data to read the height and width in the
         // IHDR element. Also read the DPI in the pHYs element, if present.
         while offset < data_length {
-            let marker = &data[offset + 4..offset + 8];
+            let marker = data.get(offset + 4..offset + 8).unwrap_or_default();
             let length = unpack_u32_from_be_bytes(data, offset);
 
             // Read the image dimensions.
@@ -953,7 +953,7 @@ impl Image {
 
             // Read the image DPI values.
             if marker == "pHYs".as_bytes() {
-                let units = &data[offset + 16];
+                let units = data.get(offset + 16).unwrap_or(&0);
                 let x_density = unpack_u32_from_be_bytes(data, offset + 8);
                 let y_density = unpack_u32_from_be_bytes(data, offset + 12);
 
@@ -1006,7 +1006,7 @@ impl Image {
 
             // Read the DPI in the 0xFFE0 element.
             if marker == 0xFFE0 {
-                let units = &data[offset + 11];
+                let units = data.get(offset + 11).unwrap_or(&0);
                 let x_density = unpack_u16_from_be_bytes(data, offset + 12);
                 let y_density = unpack_u16_from_be_bytes(data, offset + 14);
 
@@ -1187,17 +1187,21 @@ impl XlsxImageType {
 
 // Some helper functions to extract 2 and 4 byte integers from image data.
 fn unpack_u16_from_be_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_be_bytes(data[offset..offset + 2].try_into().unwrap())
+    data.get(offset..offset + 2)
+        .map_or(0, |bytes| u16::from_be_bytes(bytes.try_into().unwrap()))
 }
 
 fn unpack_u16_from_le_bytes(data: &[u8], offset: usize) -> u16 {
-    u16::from_le_bytes(data[offset..offset + 2].try_into().unwrap())
+    data.get(offset..offset + 2)
+        .map_or(0, |bytes| u16::from_le_bytes(bytes.try_into().unwrap()))
 }
 
 fn unpack_u32_from_be_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_be_bytes(data[offset..offset + 4].try_into().unwrap())
+    data.get(offset..offset + 4)
+        .map_or(0, |bytes| u32::from_be_bytes(bytes.try_into().unwrap()))
 }
 
 fn unpack_u32_from_le_bytes(data: &[u8], offset: usize) -> u32 {
-    u32::from_le_bytes(data[offset..offset + 4].try_into().unwrap())
+    data.get(offset..offset + 4)
+        .map_or(0, |bytes| u32::from_le_bytes(bytes.try_into().unwrap()))
 }
-- 
2.43.0


From 1ad4f7cf564910e8c1bee23370972558cc5f45ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 012/100] fix: set the displayed size of images with a
 non-default DPI

---
 src/image.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index afde55c..45a6d56 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -330,7 +330,7 @@ impl Image {
         }
 
         // Set the scale width rather than the actual height.
-        self.scale_width = f64::from(width) / self.width;
+        self.scale_width = f64::from(width) * self.width_dpi / (self.width * 96.0);
         self
     }
 
@@ -351,7 +351,7 @@ impl Image {
         }
 
         // Set the scale height rather than the actual height.
-        self.scale_height = f64::from(height) / self.height;
+        self.scale_height = f64::from(height) * self.height_dpi / (self.height * 96.0);
         self
     }
 
-- 
2.43.0


From 594d49e3dff6e890d2a6e37c201c3250bb5f94cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 013/100] fix: use unique image ids for header and footer
 images

---
 src/workbook.rs  | 7 ++-----
 src/worksheet.rs | 8 ++++----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 3d40929..d9732af 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2339,11 +2339,8 @@ impl Workbook {
             }
 
             if worksheet.has_header_footer_images() {
-                // The header/footer images are counted from the last worksheet id.
-                let base_image_id =
-                    background_image_ids.len() as u32 + worksheet_image_ids.len() as u32;
-
-                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, base_image_id);
+                // The header/footer image ids continue from the last image id.
+                worksheet.prepare_header_footer_images(&mut header_footer_image_ids, &mut image_id);
             }
         }
     }
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 913b345..4a61956 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16338,16 +16338,16 @@ impl Worksheet {
     pub(crate) fn prepare_header_footer_images(
         &mut self,
         image_ids: &mut HashMap<String, u32>,
-        base_image_id: u32,
+        image_id: &mut u32,
     ) {
         let mut rel_ids: HashMap<String, u32> = HashMap::new();
         for image in self.header_footer_images.clone().into_iter().flatten() {
             let image_id = match image_ids.get(&image.hash) {
                 Some(image_id) => *image_id,
                 None => {
-                    let image_id = 1 + base_image_id + image_ids.len() as u32;
-                    image_ids.insert(image.hash.clone(), image_id);
-                    image_id
+                    *image_id += 1;
+                    image_ids.insert(image.hash.clone(), *image_id);
+                    *image_id
                 }
             };
 
-- 
2.43.0


From 16d52bee49f997a62e414bca0197e986061d59e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 014/100] fix: read the size of BMP images that are stored
 top-down

---
 src/image.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/image.rs b/src/image.rs
index 45a6d56..a07720a 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1050,7 +1050,9 @@ impl Image {
         let height_dpi: f64 = 96.0;
 
         let width = unpack_u32_from_le_bytes(data, 18);
-        let height = unpack_u32_from_le_bytes(data, 22);
+
+        // The height is negative for images that are stored top-down.
+        let height = (unpack_u32_from_le_bytes(data, 22) as i32).unsigned_abs();
 
         self.width = f64::from(width);
         self.height = f64::from(height);
-- 
2.43.0


From 4079a966c90cd164afb4a3411699b25c6f8ebe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 015/100] fix: keep the alternative text of embedded images
 that share image data

---
 src/image.rs     |  6 ++++++
 src/packager.rs  | 13 ++++++++++---
 src/workbook.rs  | 13 +++++++++----
 src/worksheet.rs |  7 ++++---
 4 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index a07720a..627e66f 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -867,6 +867,12 @@ impl Image {
         self.vml_name.clone()
     }
 
+    // The key used to identify embedded images. Images with the same data but
+    // different properties are stored as different rich values.
+    pub(crate) fn embedded_key(&self) -> (String, String, bool) {
+        (self.hash.clone(), self.alt_text.clone(), self.decorative)
+    }
+
     // Check if the image scale has changed. Mainly used by header/footer VML.
     pub(crate) fn is_scaled(&self) -> bool {
         self.scale_height != 1.0 || self.scale_width != 1.0
diff --git a/src/packager.rs b/src/packager.rs
index bdda890..591a9ce 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -40,7 +40,7 @@
 // The Packager struct coordinates the classes that represent the elements of
 // the package and writes them into the xlsx file.
 
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::io::{Seek, Write};
 
 #[cfg(feature = "constant_memory")]
@@ -606,11 +606,12 @@ impl<W: Write + Seek + Send> Packager<W> {
     ) -> Result<(), XlsxError> {
         let mut rels = Relationship::new();
 
-        let mut index = 1;
+        let mut image_ids: HashMap<&String, usize> = HashMap::new();
         for image in &workbook.embedded_images {
+            let next_index = image_ids.len() + 1;
+            let index = image_ids.entry(&image.hash).or_insert(next_index);
             let target = format!("../media/image{index}.{}", image.image_type.extension());
             rels.add_document_relationship("image", &target, "");
-            index += 1;
         }
 
         let filename = "xl/richData/_rels/richValueRel.xml.rels";
@@ -966,7 +967,13 @@ impl<W: Write + Seek + Send> Packager<W> {
         let mut unique_header_footer_images = HashSet::new();
         let mut unique_background_images = HashSet::new();
 
+        let mut unique_embedded_images = HashSet::new();
+
         for image in &workbook.embedded_images {
+            if !unique_embedded_images.insert(&image.hash) {
+                continue;
+            }
+
             let filename = format!("xl/media/image{index}.{}", image.image_type.extension());
             self.zip
                 .start_file(filename, self.zip_options_for_binary_files)?;
diff --git a/src/workbook.rs b/src/workbook.rs
index d9732af..1f64e0d 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2255,7 +2255,7 @@ impl Workbook {
     // account duplicate images.
     fn prepare_embedded_images(&mut self) {
         let mut embedded_images = vec![];
-        let mut image_ids: HashMap<String, u32> = HashMap::new();
+        let mut image_ids: HashMap<(String, String, bool), u32> = HashMap::new();
         let mut global_image_id = 0;
 
         for worksheet in &mut self.worksheets {
@@ -2265,12 +2265,12 @@ impl Workbook {
 
             let mut global_embedded_image_ids = vec![];
             for image in &worksheet.embedded_images {
-                let image_id = match image_ids.get(&image.hash) {
+                let image_id = match image_ids.get(&image.embedded_key()) {
                     Some(image_id) => *image_id,
                     None => {
                         global_image_id += 1;
                         embedded_images.push(image.clone());
-                        image_ids.insert(image.hash.clone(), global_image_id);
+                        image_ids.insert(image.embedded_key(), global_image_id);
                         global_image_id
                     }
                 };
@@ -2289,7 +2289,12 @@ impl Workbook {
         let mut chart_id = 1;
         let mut drawing_id = 1;
         let mut shape_id = 1;
-        let mut image_id = self.embedded_images.len() as u32;
+        let mut image_id = self
+            .embedded_images
+            .iter()
+            .map(|image| &image.hash)
+            .collect::<HashSet<_>>()
+            .len() as u32;
 
         // These are the image ids for each unique image file.
         let mut worksheet_image_ids: HashMap<String, u32> = HashMap::new();
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 4a61956..dfca653 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1616,7 +1616,7 @@ pub struct Worksheet {
     has_x14_conditional_formats: bool,
     has_sparklines: bool,
     sparklines: Vec<Sparkline>,
-    embedded_image_ids: HashMap<String, u32>,
+    embedded_image_ids: HashMap<(String, String, bool), u32>,
     show_all_notes: bool,
     user_default_row_height: f64,
     hide_unused_rows: bool,
@@ -15399,11 +15399,12 @@ impl Worksheet {
             )));
         }
 
-        let image_id = match self.embedded_image_ids.get(&image.hash) {
+        let image_id = match self.embedded_image_ids.get(&image.embedded_key()) {
             Some(image_id) => *image_id,
             None => {
                 let image_id = self.embedded_image_ids.len() as u32;
-                self.embedded_image_ids.insert(image.hash.clone(), image_id);
+                self.embedded_image_ids
+                    .insert(image.embedded_key(), image_id);
                 self.embedded_images.push(image.clone());
                 image_id
             }
-- 
2.43.0


From 8dfd70fe058d36e7815e9f3940d738916d73b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 016/100] fix: use the right relationship ids for object links

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index dfca653..d02adec 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16199,7 +16199,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
@@ -16222,7 +16222,7 @@ impl Worksheet {
             let rel_id = match self.drawing_rel_ids.get(&image.hash) {
                 Some(rel_id) => *rel_id,
                 None => {
-                    let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                    let rel_id = 1 + self.drawing_relationships.len() as u32;
                     self.drawing_rel_ids.insert(image.hash.clone(), rel_id);
 
                     // Store the linkage to the drawings rels file.
@@ -16290,7 +16290,7 @@ impl Worksheet {
                 let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
                     Some(rel_id) => *rel_id,
                     None => {
-                        let rel_id = 1 + self.drawing_rel_ids.len() as u32;
+                        let rel_id = 1 + self.drawing_relationships.len() as u32;
                         self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
 
                         // Store the linkage to the drawings rels file.
-- 
2.43.0


From 387ac174bb653aa5b556b62c0a9db5a074fd6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 017/100] fix: store the object movement option of notes and
 buttons

---
 src/button.rs |  1 +
 src/note.rs   |  1 +
 src/vml.rs    | 35 ++++++++++++++++++++++++++++++++---
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/button.rs b/src/button.rs
index 4ec4fcd..e98c76c 100644
--- a/src/button.rs
+++ b/src/button.rs
@@ -308,6 +308,7 @@ impl Button {
             alt_text: self.alt_text.clone(),
             macro_name: self.macro_name.clone(),
             fill_color: "buttonFace [67]".to_string(),
+            object_movement: Some(self.object_movement),
             ..Default::default()
         }
     }
diff --git a/src/note.rs b/src/note.rs
index b53cdc4..770e999 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -639,6 +639,7 @@ impl Note {
             alt_text: self.alt_text.clone(),
             is_visible: self.is_visible.unwrap_or(false),
             fill_color: self.format.fill.background_color.vml_rgb_hex_value(),
+            object_movement: Some(self.object_movement),
             ..Default::default()
         }
     }
diff --git a/src/vml.rs b/src/vml.rs
index 7210c7b..bb8ce1f 100644
--- a/src/vml.rs
+++ b/src/vml.rs
@@ -8,7 +8,7 @@ mod tests;
 
 use std::io::Cursor;
 
-use crate::{drawing::DrawingInfo, ColNum, RowNum};
+use crate::{drawing::DrawingInfo, ColNum, ObjectMovement, RowNum};
 
 use crate::xmlwriter::{
     xml_data_element, xml_data_element_only, xml_empty_tag, xml_empty_tag_only, xml_end_tag,
@@ -512,6 +512,13 @@ impl Vml {
 
         xml_start_tag(&mut self.writer, "x:ClientData", &attributes);
 
+        // Write the object movement elements.
+        self.write_object_movement(
+            vml_info
+                .object_movement
+                .unwrap_or(ObjectMovement::MoveAndSizeWithCells),
+        );
+
         // Write the x:Anchor element.
         self.write_anchor(vml_info);
 
@@ -559,8 +566,13 @@ impl Vml {
         let attributes = [("ObjectType", "Note")];
 
         xml_start_tag(&mut self.writer, "x:ClientData", &attributes);
-        xml_empty_tag_only(&mut self.writer, "x:MoveWithCells");
-        xml_empty_tag_only(&mut self.writer, "x:SizeWithCells");
+
+        // Write the object movement elements.
+        self.write_object_movement(
+            vml_info
+                .object_movement
+                .unwrap_or(ObjectMovement::DontMoveOrSizeWithCells),
+        );
 
         // Write the x:Anchor element.
         self.write_anchor(vml_info);
@@ -582,6 +594,21 @@ impl Vml {
         xml_end_tag(&mut self.writer, "x:ClientData");
     }
 
+    // Write the <x:MoveWithCells> and <x:SizeWithCells> elements. The elements
+    // turn off the respective behavior.
+    fn write_object_movement(&mut self, object_movement: ObjectMovement) {
+        match object_movement {
+            ObjectMovement::MoveAndSizeWithCells | ObjectMovement::MoveAndSizeWithCellsAfter => {}
+            ObjectMovement::MoveButDontSizeWithCells => {
+                xml_empty_tag_only(&mut self.writer, "x:SizeWithCells");
+            }
+            ObjectMovement::DontMoveOrSizeWithCells => {
+                xml_empty_tag_only(&mut self.writer, "x:MoveWithCells");
+                xml_empty_tag_only(&mut self.writer, "x:SizeWithCells");
+            }
+        }
+    }
+
     // Write the <x:Anchor> element for shape anchoring.
     fn write_anchor(&mut self, vml_info: &VmlInfo) {
         let anchor = format!(
@@ -660,6 +687,7 @@ pub(crate) struct VmlInfo {
     pub(crate) drawing_info: DrawingInfo,
     pub(crate) is_visible: bool,
     pub(crate) fill_color: String,
+    pub(crate) object_movement: Option<ObjectMovement>,
 }
 
 impl Default for VmlInfo {
@@ -678,6 +706,7 @@ impl Default for VmlInfo {
             drawing_info: DrawingInfo::default(),
             is_visible: false,
             fill_color: String::new(),
+            object_movement: None,
         }
     }
 }
-- 
2.43.0


From 9e73879bd0d09072e92d72694e77a4bf05a2b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 018/100] fix: only read the resolution of JPEG images from
 JFIF segments

---
 src/image.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 627e66f..f853541 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1010,8 +1010,9 @@ impl Image {
                 width = u32::from(unpack_u16_from_be_bytes(data, offset + 7));
             }
 
-            // Read the DPI in the 0xFFE0 element.
-            if marker == 0xFFE0 {
+            // Read the DPI in the 0xFFE0 JFIF element.
+            let identifier = data.get(offset + 4..offset + 8).unwrap_or_default();
+            if marker == 0xFFE0 && identifier == "JFIF".as_bytes() {
                 let units = data.get(offset + 11).unwrap_or(&0);
                 let x_density = unpack_u16_from_be_bytes(data, offset + 12);
                 let y_density = unpack_u16_from_be_bytes(data, offset + 14);
-- 
2.43.0


From ab773b3207ed12e644803aa05ce50073a80e5fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 019/100] fix: don't overflow with objects that extend beyond
 the worksheet limits

---
 src/worksheet.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d02adec..659d75c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16670,7 +16670,7 @@ impl Worksheet {
         // Adjust start col for offsets that are greater than the col width.
         loop {
             let col_size = self.column_pixel_width(col_start, object.object_movement());
-            if x1 >= col_size {
+            if x1 >= col_size && col_start < COL_MAX {
                 x1 -= col_size;
                 col_start += 1;
             } else {
@@ -16681,7 +16681,7 @@ impl Worksheet {
         // Adjust start row for offsets that are greater than the row height.
         loop {
             let row_size = self.row_pixel_height(row_start, object.object_movement());
-            if y1 >= row_size {
+            if y1 >= row_size && row_start < ROW_MAX {
                 y1 -= row_size;
                 row_start += 1;
             } else {
@@ -16700,7 +16700,7 @@ impl Worksheet {
         // Subtract the underlying cell widths to find the end cell.
         loop {
             let col_size = f64::from(self.column_pixel_width(col_end, object.object_movement()));
-            if x2 >= col_size {
+            if x2 >= col_size && col_end < COL_MAX {
                 x2 -= col_size;
                 col_end += 1;
             } else {
@@ -16711,7 +16711,7 @@ impl Worksheet {
         //Subtract the underlying cell heights to find the end cell.
         loop {
             let row_size = f64::from(self.row_pixel_height(row_end, object.object_movement()));
-            if y2 >= row_size {
+            if y2 >= row_size && row_end < ROW_MAX {
                 y2 -= row_size;
                 row_end += 1;
             } else {
-- 
2.43.0


From 12cf3c08635795a588162e9646a4f9330ef589f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 020/100] fix: refuse tables that have no data rows

---
 src/worksheet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 659d75c..fb84c7c 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8776,7 +8776,8 @@ impl Worksheet {
         }
 
         // Check that the table has at least one valid row.
-        if first_row == last_row && table.show_header_row {
+        let non_data_rows = u32::from(table.show_header_row) + u32::from(table.show_total_row);
+        if last_row - first_row < non_data_rows {
             return Err(XlsxError::TableError(
                 "Table must have at least one row".to_string(),
             ));
-- 
2.43.0


From 9d4b44bf93ddc9345e1de6b46404b5ccc05ac9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 021/100] fix: close the extension element of each worksheet
 extension

---
 src/worksheet.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index fb84c7c..2840325 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19696,6 +19696,8 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_conditional_formattings();
+
+            xml_end_tag(&mut self.writer, "ext");
         }
 
         // Write the x14:sparklineGroups element.
@@ -19709,9 +19711,9 @@ impl Worksheet {
             ];
             xml_start_tag(&mut self.writer, "ext", &attributes);
             self.write_sparkline_groups();
-        }
 
-        xml_end_tag(&mut self.writer, "ext");
+            xml_end_tag(&mut self.writer, "ext");
+        }
 
         xml_end_tag(&mut self.writer, "extLst");
     }
-- 
2.43.0


From 6b55deacec2c8cc27c9b0af80ef8cd8b4a5f8605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 022/100] fix: store conditional format priorities in the order
 of addition

---
 src/worksheet.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2840325..118d72e 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1608,7 +1608,7 @@ pub struct Worksheet {
     filter_automatic_off: bool,
     has_drawing_object_linkage: bool,
     cells_with_autofilter: HashMap<(RowNum, ColNum), (FilterType, CellRange)>,
-    conditional_formats: BTreeMap<String, Vec<Box<dyn ConditionalFormat + Sync + Send>>>,
+    conditional_formats: BTreeMap<String, Vec<(u32, Box<dyn ConditionalFormat + Sync + Send>)>>,
     conditional_format_order: Vec<String>,
     data_validations: BTreeMap<String, DataValidation>,
     has_conditional_formats: bool,
@@ -9063,16 +9063,23 @@ impl Worksheet {
             format.dxf_index = self.format_dxf_index(format);
         }
 
+        // The rule priorities follow the order in which the rules are added.
+        let priority = 1 + self
+            .conditional_formats
+            .values()
+            .map(|rules| rules.len() as u32)
+            .sum::<u32>();
+
         match self.conditional_formats.entry(cell_range.clone()) {
             Entry::Occupied(mut entry) => {
                 // The conditional format range already exists. Append the rule.
                 let rules = entry.get_mut();
-                rules.push(conditional_format);
+                rules.push((priority, conditional_format));
             }
             Entry::Vacant(entry) => {
                 // The row doesn't exist, create a new row with columns and insert
                 // the cell value.
-                let rules = vec![conditional_format];
+                let rules = vec![(priority, conditional_format)];
                 entry.insert(rules);
 
                 // Also store the order that the ranges are added in.
@@ -17931,14 +17938,13 @@ impl Worksheet {
     // Write the <conditionalFormatting> element.
     fn write_conditional_formats(&mut self) {
         let mut guid_index = 1;
-        let mut priority = 1;
 
         for cell_range in &self.conditional_format_order {
             let conditionals_for_range = self.conditional_formats.get(cell_range).unwrap();
 
             let has_x14_only = conditionals_for_range
                 .iter()
-                .all(|rule| rule.has_x14_only());
+                .all(|(_, rule)| rule.has_x14_only());
 
             // Don't write classic CFs if range only contains new style x14 CFs.
             if !has_x14_only {
@@ -17946,7 +17952,7 @@ impl Worksheet {
                 xml_start_tag(&mut self.writer, "conditionalFormatting", &attributes);
             }
 
-            for conditional_format in conditionals_for_range {
+            for (priority, conditional_format) in conditionals_for_range {
                 // Create a pseudo GUID for each unique Excel 2010 data bar.
                 let mut guid = String::new();
                 if conditional_format.has_x14_extensions() {
@@ -17965,11 +17971,9 @@ impl Worksheet {
                 }
 
                 if !conditional_format.has_x14_only() {
-                    let rule = conditional_format.rule(dxf_index, priority, cell_range, &guid);
+                    let rule = conditional_format.rule(dxf_index, *priority, cell_range, &guid);
                     xml_raw_string(&mut self.writer, &rule);
                 }
-
-                priority += 1;
             }
 
             if !has_x14_only {
@@ -17984,13 +17988,14 @@ impl Worksheet {
         xml_start_tag_only(&mut self.writer, "x14:conditionalFormattings");
 
         let mut guid_index = 1;
-        let mut priority = 1;
 
-        for (cell_range, conditionals_for_range) in &self.conditional_formats {
+        for cell_range in &self.conditional_format_order {
+            let conditionals_for_range = self.conditional_formats.get(cell_range).unwrap();
+
             // Only create an entry if range contains a x14 style conditional.
             if !conditionals_for_range
                 .iter()
-                .any(|rule| rule.has_x14_extensions())
+                .any(|(_, rule)| rule.has_x14_extensions())
             {
                 continue;
             }
@@ -18002,7 +18007,7 @@ impl Worksheet {
 
             xml_start_tag(&mut self.writer, "x14:conditionalFormatting", &attributes);
 
-            for conditional_format in conditionals_for_range {
+            for (priority, conditional_format) in conditionals_for_range {
                 if conditional_format.has_x14_extensions() {
                     // Create a pseudo GUID for each unique Excel 2010 data bar.
                     let guid = format!(
@@ -18012,10 +18017,9 @@ impl Worksheet {
                     );
                     guid_index += 1;
 
-                    let rule = conditional_format.x14_rule(priority, &guid);
+                    let rule = conditional_format.x14_rule(*priority, &guid);
                     xml_raw_string(&mut self.writer, &rule);
                 }
-                priority += 1;
             }
 
             xml_data_element_only(&mut self.writer, "xm:sqref", cell_range);
-- 
2.43.0


From 476317ad99c971f603abf27a16c2e2e5486749b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 023/100] fix: use the text length and escape quotes in text
 conditional formats

---
 src/conditional_format.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 3fa5a8a..d4e15b6 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3005,20 +3005,24 @@ impl ConditionalFormatText {
         // Set the rule attributes based on the criteria.
         let formula = match rule {
             ConditionalFormatTextRule::Contains(text) => {
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "containsText".to_string()));
                 format!(r#"NOT(ISERROR(SEARCH("{text}",{anchor})))"#)
             }
             ConditionalFormatTextRule::DoesNotContain(text) => {
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "notContainsText".to_string()));
                 format!(r#"ISERROR(SEARCH("{text}",{anchor}))"#)
             }
             ConditionalFormatTextRule::BeginsWith(text) => {
-                let length = text.len();
+                let length = text.encode_utf16().count();
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "beginsWith".to_string()));
                 format!(r#"LEFT({anchor},{length})="{text}""#)
             }
             ConditionalFormatTextRule::EndsWith(text) => {
-                let length = text.len();
+                let length = text.encode_utf16().count();
+                let text = text.replace('"', "\"\"");
                 attributes.push(("type", "endsWith".to_string()));
                 format!(r#"RIGHT({anchor},{length})="{text}""#)
             }
-- 
2.43.0


From fd6d4564826a0f50a8bf5282a9f647e6d825de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 024/100] fix: store theme colors of color scales and data bars

---
 src/conditional_format.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index d4e15b6..6ebaff2 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -3775,7 +3775,7 @@ impl ConditionalFormat2ColorScale {
 
     // Write the <color> element.
     fn write_color(writer: &mut Cursor<Vec<u8>>, color: Color) {
-        let attributes = [("rgb", color.argb_hex_value())];
+        let attributes = color.attributes();
 
         xml_empty_tag(writer, "color", &attributes);
     }
@@ -4312,7 +4312,7 @@ impl ConditionalFormat3ColorScale {
 
     // Write the <color> element.
     fn write_color(writer: &mut Cursor<Vec<u8>>, color: Color) {
-        let attributes = [("rgb", color.argb_hex_value())];
+        let attributes = color.attributes();
 
         xml_empty_tag(writer, "color", &attributes);
     }
@@ -5367,7 +5367,7 @@ impl ConditionalFormatDataBar {
 
     // Write the <color> element.
     fn write_color(writer: &mut Cursor<Vec<u8>>, color_tag: &str, color: Color) {
-        let attributes = [("rgb", color.argb_hex_value())];
+        let attributes = color.attributes();
 
         xml_empty_tag(writer, color_tag, &attributes);
     }
-- 
2.43.0


From fec46a75b7bcb7c9a278cecfee1479dc61520560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 025/100] fix: store the options of extended conditional format
 icon sets

---
 src/conditional_format.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 6ebaff2..837435f 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6168,6 +6168,14 @@ impl ConditionalFormatIconSet {
             attributes.push(("iconSet", self.icon_type.to_string()));
         }
 
+        if self.icon_only {
+            attributes.push(("showValue", "0".to_string()));
+        }
+
+        if self.is_reversed {
+            attributes.push(("reverse", "1".to_string()));
+        }
+
         if self.has_custom_icons {
             attributes.push(("custom", "1".to_string()));
         }
@@ -6245,24 +6253,36 @@ impl ConditionalFormatIconSet {
             | ConditionalFormatType::Highest => {}
             ConditionalFormatType::Number => {
                 attributes.push(("type", "num".to_string()));
+                if icon.greater_than {
+                    attributes.push(("gte", "0".to_string()));
+                }
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Percent => {
                 attributes.push(("type", "percent".to_string()));
+                if icon.greater_than {
+                    attributes.push(("gte", "0".to_string()));
+                }
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Formula => {
                 attributes.push(("type", "formula".to_string()));
+                if icon.greater_than {
+                    attributes.push(("gte", "0".to_string()));
+                }
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
             }
             ConditionalFormatType::Percentile => {
                 attributes.push(("type", "percentile".to_string()));
+                if icon.greater_than {
+                    attributes.push(("gte", "0".to_string()));
+                }
                 xml_start_tag(writer, "x14:cfvo", &attributes);
                 xml_data_element_only(writer, "xm:f", value);
                 xml_end_tag(writer, "x14:cfvo");
-- 
2.43.0


From 02251d6462a72149f8058fab6976fcffa639bc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 026/100] fix: ignore rule types that aren't supported by
 custom icons

---
 src/conditional_format.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 837435f..cb592ee 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6421,7 +6421,10 @@ impl ConditionalFormatCustomIcon {
             }
         }
         // The highest option cannot be set for the minimum.
-        if rule_type != ConditionalFormatType::Highest {
+        if rule_type != ConditionalFormatType::Lowest
+            && rule_type != ConditionalFormatType::Highest
+            && rule_type != ConditionalFormatType::Automatic
+        {
             self.rule_type = rule_type;
             self.value = value;
         }
-- 
2.43.0


From fe9758a275dc4b946cdd4afa8f5954f87997b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 027/100] fix: store the stop if true option of extended icon
 sets

---
 src/conditional_format.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index cb592ee..8559070 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -6153,12 +6153,17 @@ impl ConditionalFormatIconSet {
     // Return an extended x14 rule for conditional formats that support it.
     pub(crate) fn x14_rule(&self, priority: u32, guid: &str) -> String {
         let mut writer = Cursor::new(Vec::with_capacity(2048));
-        let attributes = [
+        let mut attributes = vec![
             ("type", "iconSet".to_string()),
             ("priority", priority.to_string()),
-            ("id", guid.to_string()),
         ];
 
+        if self.stop_if_true {
+            attributes.push(("stopIfTrue", "1".to_string()));
+        }
+
+        attributes.push(("id", guid.to_string()));
+
         // Write the rule.
         xml_start_tag(&mut writer, "x14:cfRule", &attributes);
 
-- 
2.43.0


From 75328103d9e89664a87249971409438e00136e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 028/100] fix: negative border of data bars and quoting of
 conditional values

---
 src/conditional_format.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/conditional_format.rs b/src/conditional_format.rs
index 8559070..73bb062 100644
--- a/src/conditional_format.rs
+++ b/src/conditional_format.rs
@@ -5416,7 +5416,7 @@ impl ConditionalFormatDataBar {
             );
         }
 
-        if !self.border_off && self.fill_color != self.negative_border_color {
+        if !self.has_same_border_colors() {
             Self::write_color(
                 &mut writer,
                 "x14:negativeBorderColor",
@@ -5434,6 +5434,14 @@ impl ConditionalFormatDataBar {
         cursor_to_string(&writer)
     }
 
+    // Check if the negative border can be stored as being the same as the
+    // positive border. Excel also stores it if it differs from the fill color.
+    fn has_same_border_colors(&self) -> bool {
+        self.border_off
+            || (self.border_color == self.negative_border_color
+                && self.fill_color == self.negative_border_color)
+    }
+
     // Write the <x14:dataBar> element.
     fn write_data_bar(writer: &mut Cursor<Vec<u8>>, data_bar: ConditionalFormatDataBar) {
         let mut attributes = vec![
@@ -5463,7 +5471,7 @@ impl ConditionalFormatDataBar {
             attributes.push(("negativeBarColorSameAsPositive", "1".to_string()));
         }
 
-        if !data_bar.border_off && data_bar.fill_color != data_bar.negative_border_color {
+        if !data_bar.has_same_border_colors() {
             attributes.push(("negativeBarBorderColorSameAsPositive", "0".to_string()));
         }
 
@@ -6651,7 +6659,7 @@ impl ConditionalFormatValue {
         }
 
         // Ignore already quoted strings.
-        if self.value.starts_with('"') && self.value.ends_with('"') {
+        if self.value.len() > 1 && self.value.starts_with('"') && self.value.ends_with('"') {
             return;
         }
 
-- 
2.43.0


From 1409304c11066359da36743a52ba66262f1bd147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 029/100] fix: quoted sheet names, limits and invalid
 references in range strings

---
 src/chart.rs   | 26 +++++++++++++++-----------
 src/utility.rs | 20 +++++++++++---------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 73b8b82..d99edee 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8373,7 +8373,7 @@ impl ChartRange {
         let mut last_col = 0;
 
         // Parse the chart range string into the worksheet name and range parts.
-        if let Some(position) = range_string.find('!') {
+        if let Some(position) = range_string.rfind('!') {
             let range = &range_string[position + 1..].replace('$', "");
 
             if utility::is_valid_range(range) {
@@ -8389,11 +8389,9 @@ impl ChartRange {
                         let (last_col_string, last_row_string) =
                             utility::split_cell_reference(last_cell);
 
-                        first_row = first_row_string.parse::<u32>().unwrap_or_default();
-                        first_row = first_row.saturating_sub(1);
+                        first_row = Self::row_number(&first_row_string);
 
-                        last_row = last_row_string.parse::<u32>().unwrap_or_default();
-                        last_row = last_row.saturating_sub(1);
+                        last_row = Self::row_number(&last_row_string);
 
                         first_col = utility::column_name_to_number(&first_col_string);
                         last_col = utility::column_name_to_number(&last_col_string);
@@ -8403,8 +8401,7 @@ impl ChartRange {
                         let (first_col_string, first_row_string) =
                             utility::split_cell_reference(range);
 
-                        first_row = first_row_string.parse::<u32>().unwrap_or_default();
-                        first_row = first_row.saturating_sub(1);
+                        first_row = Self::row_number(&first_row_string);
 
                         first_col = utility::column_name_to_number(&first_col_string);
                         last_row = first_row;
@@ -8420,12 +8417,10 @@ impl ChartRange {
         }
 
         // Strip the quotes from quoted sheet names.
-        if sheet_name.starts_with('\'') && sheet_name.ends_with('\'') {
-            sheet_name = &sheet_name[1..sheet_name.len() - 1];
-        }
+        let sheet_name = utility::unquote_sheetname(sheet_name);
 
         ChartRange {
-            sheet_name: sheet_name.to_string(),
+            sheet_name,
             first_row,
             first_col,
             last_row,
@@ -8435,6 +8430,15 @@ impl ChartRange {
         }
     }
 
+    // Convert a row string to a zero indexed row. Invalid rows are converted to
+    // a row outside the worksheet limits so that the range doesn't validate.
+    fn row_number(row: &str) -> RowNum {
+        match row.parse::<RowNum>() {
+            Ok(row) if row > 0 => row - 1,
+            _ => ROW_MAX,
+        }
+    }
+
     // Convert the row/col range into a chart range string.
     pub(crate) fn formula(&self) -> String {
         utility::chart_range(
diff --git a/src/utility.rs b/src/utility.rs
index 4796619..ff0fe80 100644
--- a/src/utility.rs
+++ b/src/utility.rs
@@ -65,7 +65,7 @@ use crate::XlsxError;
 pub fn column_number_to_name(col_num: ColNum) -> String {
     let mut col_name = String::new();
 
-    let mut col_num = col_num + 1;
+    let mut col_num = u32::from(col_num) + 1;
 
     while col_num > 0 {
         // Set remainder from 1 .. 26
@@ -76,7 +76,7 @@ pub fn column_number_to_name(col_num: ColNum) -> String {
         }
 
         // Convert the remainder to a character.
-        let col_letter = char::from_u32(64u32 + u32::from(remainder)).unwrap();
+        let col_letter = char::from_u32(64u32 + remainder).unwrap();
 
         // Accumulate the column letters, right to left.
         col_name = format!("{col_letter}{col_name}");
@@ -112,12 +112,14 @@ pub fn column_name_to_number(column: &str) -> ColNum {
         return 0;
     }
 
-    let mut col_num = 0;
+    // Invalid column names saturate to a number outside the worksheet limits.
+    let mut col_num: ColNum = 0;
     for char in column.chars() {
-        col_num = (col_num * 26) + (char as u16 - 'A' as u16 + 1);
+        let digit = (char as u16).saturating_sub('A' as u16 - 1);
+        col_num = col_num.saturating_mul(26).saturating_add(digit);
     }
 
-    col_num - 1
+    col_num.saturating_sub(1)
 }
 
 /// Convert zero indexed row and column cell numbers to a `A1` style string.
@@ -142,7 +144,7 @@ pub fn column_name_to_number(column: &str) -> ColNum {
 /// ```
 ///
 pub fn row_col_to_cell(row: RowNum, col: ColNum) -> String {
-    format!("{}{}", column_number_to_name(col), row + 1)
+    format!("{}{}", column_number_to_name(col), u64::from(row) + 1)
 }
 
 /// Convert zero indexed row and column cell numbers to an absolute `$A$1` style
@@ -168,7 +170,7 @@ pub fn row_col_to_cell(row: RowNum, col: ColNum) -> String {
 /// ```
 ///
 pub fn row_col_to_cell_absolute(row: RowNum, col: ColNum) -> String {
-    format!("${}${}", column_number_to_name(col), row + 1)
+    format!("${}${}", column_number_to_name(col), u64::from(row) + 1)
 }
 
 /// Convert zero indexed row and col cell numbers to a `A1:B1` style range
@@ -673,7 +675,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
             && number_part.chars().all(|c| c.is_ascii_digit())
         {
             let col = column_name_to_number(&string_part);
-            let col = u64::from(col + 1);
+            let col = u64::from(col) + 1;
 
             let row = number_part.parse::<u64>().unwrap_or_default();
 
@@ -731,7 +733,7 @@ pub fn quote_sheet_name(sheetname: &str) -> String {
 
 // Unquote an Excel single quoted string.
 pub(crate) fn unquote_sheetname(sheetname: &str) -> String {
-    if sheetname.starts_with('\'') && sheetname.ends_with('\'') {
+    if sheetname.len() > 1 && sheetname.starts_with('\'') && sheetname.ends_with('\'') {
         let sheetname = sheetname[1..sheetname.len() - 1].to_string();
         sheetname.replace("''", "'")
     } else {
-- 
2.43.0


From e1a49a59b8b1086849b59f984545dbfa5512d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 030/100] fix: check the data order of sparkline groups against
 the number of cells

---
 src/sparkline.rs | 2 +-
 src/worksheet.rs | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sparkline.rs b/src/sparkline.rs
index 762efd7..7a43132 100644
--- a/src/sparkline.rs
+++ b/src/sparkline.rs
@@ -527,7 +527,7 @@ pub struct Sparkline {
     pub(crate) custom_max: Option<f64>,
     pub(crate) group_max: bool,
     pub(crate) group_min: bool,
-    data_row_order: bool,
+    pub(crate) data_row_order: bool,
 }
 
 #[allow(clippy::new_without_default)]
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 118d72e..ecf4d62 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -9470,7 +9470,13 @@ impl Worksheet {
         let col_range = (last_col - first_col + 1) as usize;
         let num_cells = std::cmp::max(row_range, col_range);
         let (num_rows, num_cols) = sparkline.data_range.number_of_range_points();
-        if num_cells != num_rows && num_cells != num_cols {
+        let num_ranges = if sparkline.data_row_order {
+            num_rows
+        } else {
+            num_cols
+        };
+
+        if num_cells != num_ranges {
             let cell_range = format!("({first_row}, {first_col}, {last_row}, {last_col})");
             let sparkline_range = sparkline.data_range.error_range();
             return Err(XlsxError::SparklineError(format!(
-- 
2.43.0


From 993a6f1d65aacb8602bede137e97674b47c3f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 031/100] fix: blank names and sheet names with exclamation
 marks in define_name

---
 src/workbook.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 1f64e0d..7c7fbc5 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1538,7 +1538,12 @@ impl Workbook {
         let name = name.into();
 
         // Match Global/Workbook or Local/Worksheet defined names.
-        match name.find('!') {
+        // The sheet name can also contain "!" but the defined name can't.
+        match name.rfind('!') {
+            Some(0) => {
+                let error = format!("Name '{name}' has a blank worksheet name");
+                return Err(XlsxError::ParameterError(error));
+            }
             Some(position) => {
                 defined_name.quoted_sheet_name = name[0..position].to_string();
                 defined_name.name = name[position + 1..].to_string();
@@ -1552,7 +1557,7 @@ impl Workbook {
 
         // Excel requires that the name starts with a letter or underscore.
         // Also, backspace is allowed but undocumented by Excel.
-        if !defined_name.name.chars().next().unwrap().is_alphabetic()
+        if !defined_name.name.starts_with(char::is_alphabetic)
             && !defined_name.name.starts_with('_')
             && !defined_name.name.starts_with('\\')
         {
-- 
2.43.0


From f9f318c89abbb25f172c90690e918f44d0ed1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:02 +0000
Subject: [PATCH 032/100] fix: pass URLs that contain any %xx escape through
 unchanged

---
 src/url.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index 8d24eec..7ace07a 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -532,22 +532,9 @@ impl Url {
             return false;
         }
 
-        url.as_bytes().windows(3).any(|w| {
-            matches!(
-                w,
-                b"%25"
-                    | b"%22"
-                    | b"%20"
-                    | b"%3c"
-                    | b"%3e"
-                    | b"%5b"
-                    | b"%5d"
-                    | b"%5e"
-                    | b"%60"
-                    | b"%7b"
-                    | b"%7d"
-            )
-        })
+        url.as_bytes()
+            .windows(3)
+            .any(|w| w[0] == b'%' && w[1].is_ascii_hexdigit() && w[2].is_ascii_hexdigit())
     }
 }
 
-- 
2.43.0


From 5476e6f5be7b6852d344bcecc8645a9ab87f6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 033/100] fix: keep the relationships of object links that
 differ by their anchor apart

---
 src/worksheet.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index ecf4d62..65d0ee9 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16210,11 +16210,14 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                // Use the full relationship target as the key since links can
+                // differ by their anchor only.
+                let rel_key = format!("{target_mode}:{target}");
+                let rel_id = match self.drawing_rel_ids.get(&rel_key) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_relationships.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(rel_key, rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
@@ -16301,11 +16304,14 @@ impl Worksheet {
                 let target = hyperlink.target();
                 let target_mode = hyperlink.target_mode();
 
-                let rel_id = match self.drawing_rel_ids.get(&hyperlink.link) {
+                // Use the full relationship target as the key since links can
+                // differ by their anchor only.
+                let rel_key = format!("{target_mode}:{target}");
+                let rel_id = match self.drawing_rel_ids.get(&rel_key) {
                     Some(rel_id) => *rel_id,
                     None => {
                         let rel_id = 1 + self.drawing_relationships.len() as u32;
-                        self.drawing_rel_ids.insert(hyperlink.link.clone(), rel_id);
+                        self.drawing_rel_ids.insert(rel_key, rel_id);
 
                         // Store the linkage to the drawings rels file.
                         self.drawing_relationships.push((
-- 
2.43.0


From 43a81ef52f5af9b56022b8f032fb1283ecfe11f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 034/100] fix: store the anchor of an embedded image link once

---
 src/worksheet.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 65d0ee9..a5442f4 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15433,8 +15433,17 @@ impl Worksheet {
         self.image_types[image.image_type.clone() as usize] = true;
 
         // Store the image hyperlink, if any.
+        //
+        // This is stored like a cell URL where, unlike in an object URL, any anchor
+        // is separate from the link target.
         if let Some(url) = &image.url {
-            self.hyperlinks.insert((row, col), url.clone());
+            let mut hyperlink = Url::new(&url.original_url)
+                .set_text(&url.text)
+                .set_tip(&url.tool_tip);
+            hyperlink.initialize()?;
+            hyperlink.is_object_link = true;
+
+            self.hyperlinks.insert((row, col), hyperlink);
         }
 
         // Get the index of the format object, if any.
-- 
2.43.0


From 8c00a57448eda27ee28b3ac77285a2657c672198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 035/100] fix: keep the anchor of image and shape links to
 relative files

---
 src/url.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/url.rs b/src/url.rs
index 7ace07a..5d32087 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -451,6 +451,11 @@ impl Url {
             if self.is_object_link {
                 if is_relative_path {
                     self.relationship_link = self.link.replace('\\', "/");
+
+                    if !self.anchor.is_empty() {
+                        self.relationship_link =
+                            format!("{}#{}", self.relationship_link, self.anchor);
+                    }
                 } else {
                     self.relationship_link.clone_from(&self.original_url);
                 }
-- 
2.43.0


From 890e14203986867e16fbfbd8ce535cdb698cd953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 036/100] fix: keep the anchor of shape links

---
 src/shape.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shape.rs b/src/shape.rs
index 87282ac..37d44c9 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -560,6 +560,7 @@ impl Shape {
     ///
     pub fn set_url(mut self, link: impl Into<Url>) -> Result<Shape, XlsxError> {
         let mut url = link.into();
+        url.is_object_link = true;
         url.initialize()?;
 
         self.url = Some(url);
-- 
2.43.0


From 568ab76ce10c2016e3a665f85f065100fb00323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 037/100] fix: write the note authors in the order of their ids

---
 src/packager.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/packager.rs b/src/packager.rs
index 591a9ce..6d74e6f 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -898,7 +898,11 @@ impl<W: Write + Seek + Send> Packager<W> {
 
                 let mut comment = Comment::new();
                 comment.notes = worksheet.notes.clone();
-                comment.note_authors = worksheet.note_authors.keys().cloned().collect();
+
+                // The authors are referred to by id so write them in that order.
+                let mut authors: Vec<_> = worksheet.note_authors.iter().collect();
+                authors.sort_by_key(|(_, id)| **id);
+                comment.note_authors = authors.into_iter().map(|(name, _)| name.clone()).collect();
 
                 comment.assemble_xml_file();
 
-- 
2.43.0


From 6d4a9a875629f5bbb9b3c03af38b43c48eb4c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 038/100] fix: count buttons when reserving the VML shape ids
 of a sheet

---
 src/workbook.rs  | 6 +++---
 src/worksheet.rs | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 7c7fbc5..adbe5c5 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2232,7 +2232,7 @@ impl Workbook {
 
         for worksheet in &mut self.worksheets {
             if worksheet.has_vml {
-                let note_count = worksheet.prepare_vml_objects(vml_data_id, vml_shape_id);
+                let shape_count = worksheet.prepare_vml_objects(vml_data_id, vml_shape_id);
                 worksheet.add_vml_drawing_rel_link(vml_drawing_id);
                 vml_drawing_id += 1;
 
@@ -2243,8 +2243,8 @@ impl Workbook {
                 }
 
                 // Each VML should start with a shape id incremented by 1024.
-                vml_data_id += (1024 + note_count) / 1024;
-                vml_shape_id += 1024 * ((1024 + note_count) / 1024);
+                vml_data_id += (1024 + shape_count) / 1024;
+                vml_shape_id += 1024 * ((1024 + shape_count) / 1024);
             }
 
             if worksheet.has_header_footer_images() {
diff --git a/src/worksheet.rs b/src/worksheet.rs
index a5442f4..8674607 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16496,10 +16496,11 @@ impl Worksheet {
         }
 
         // The VML o:idmap data id contains a comma separated range when there
-        // is more than one 1024 block of comments, like this: data="1,2".
+        // is more than one 1024 block of shapes, like this: data="1,2".
+        let shape_count = note_count + self.buttons.len() as u32;
         let mut oid_map = vml_data_id.to_string();
 
-        for i in 0..note_count / 1024 {
+        for i in 0..shape_count / 1024 {
             let next_id = vml_data_id + i + 1;
             oid_map = format!("{oid_map},{next_id}");
         }
@@ -16507,7 +16508,7 @@ impl Worksheet {
         self.vml_data_id = oid_map;
         self.vml_shape_id = vml_shape_id;
 
-        note_count
+        shape_count
     }
 
     // Store the commentN.xml file linkage to the worksheets rels file.
-- 
2.43.0


From 3d990494aedf8f7be334076085564946a86a4f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 039/100] fix: show_all_notes() can be changed between saves

---
 src/worksheet.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8674607..d0ee892 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16428,14 +16428,9 @@ impl Worksheet {
         let mut button_id = 1;
         let mut note_count = 0;
 
-        // Modify Note visibility and author according to worksheet settings.
+        // Modify Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
             for note in columns.values_mut() {
-                // Set all notes visible if required.
-                if self.show_all_notes && note.is_visible.is_none() {
-                    note.is_visible = Some(true);
-                }
-
                 // Check for a user defined author name.
                 let Some(note_author) = &note.author else {
                     continue;
@@ -16462,6 +16457,10 @@ impl Worksheet {
                 let note_col = note.col();
 
                 let mut vml_info = note.vml_info();
+
+                // Set all notes visible if required.
+                vml_info.is_visible = note.is_visible.unwrap_or(self.show_all_notes);
+
                 vml_info.drawing_info = self.position_object_pixels(note_row, note_col, note);
                 vml_info.row = *cell_row;
                 vml_info.col = *cell_col;
-- 
2.43.0


From a6ce34ebd38d7fa18299140a6eafc6990692dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:12 +0000
Subject: [PATCH 040/100] fix: write the strikethrough property of chart and
 shape fonts

---
 src/chart.rs   | 4 ++++
 src/drawing.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index d99edee..4eaaab7 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5780,6 +5780,10 @@ impl Chart {
             attributes.push(("u", "sng".to_string()));
         }
 
+        if font.strikethrough {
+            attributes.push(("strike", "sngStrike".to_string()));
+        }
+
         if font.has_baseline {
             attributes.push(("baseline", "0".to_string()));
         }
diff --git a/src/drawing.rs b/src/drawing.rs
index 90cdda7..190435e 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1114,6 +1114,10 @@ impl Drawing {
             attributes.push(("u", "sng".to_string()));
         }
 
+        if font.strikethrough {
+            attributes.push(("strike", "sngStrike".to_string()));
+        }
+
         if font.has_baseline {
             attributes.push(("baseline", "0".to_string()));
         }
-- 
2.43.0


From 9f7ca51735b7cd5070336729ebf5d0e60d57b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 041/100] fix: write the right to left property of shape fonts

---
 src/drawing.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/drawing.rs b/src/drawing.rs
index 190435e..0584906 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -1171,17 +1171,21 @@ impl Drawing {
 
     // Write the <a:rPr> element for horizontal text alignment.
     fn write_text_alignment(&mut self, shape: &Shape) {
+        let mut attributes = vec![];
+
         match shape.text_options.horizontal_alignment {
             ShapeTextHorizontalAlignment::Default => {}
-            ShapeTextHorizontalAlignment::Left => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "l")]);
-            }
-            ShapeTextHorizontalAlignment::Center => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "ctr")]);
-            }
-            ShapeTextHorizontalAlignment::Right => {
-                xml_empty_tag(&mut self.writer, "a:pPr", &[("algn", "r")]);
-            }
+            ShapeTextHorizontalAlignment::Left => attributes.push(("algn", "l")),
+            ShapeTextHorizontalAlignment::Center => attributes.push(("algn", "ctr")),
+            ShapeTextHorizontalAlignment::Right => attributes.push(("algn", "r")),
+        }
+
+        if let Some(right_to_left) = shape.font.right_to_left {
+            attributes.push(("rtl", if right_to_left { "1" } else { "0" }));
+        }
+
+        if !attributes.is_empty() {
+            xml_empty_tag(&mut self.writer, "a:pPr", &attributes);
         }
     }
 
-- 
2.43.0


From ef57d1107ebf31d79a2e229d2be652fbc775e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 042/100] fix: write chart and shape font sizes as whole
 hundredths of a point

---
 src/chart.rs | 2 +-
 src/shape.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 4eaaab7..be8439a 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -15467,7 +15467,7 @@ impl ChartFont {
     where
         T: Into<f64>,
     {
-        self.size = font_size.into() * 100.0;
+        self.size = (font_size.into() * 100.0).round();
         self
     }
 
diff --git a/src/shape.rs b/src/shape.rs
index 37d44c9..0ceb8ef 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -3104,7 +3104,7 @@ impl ShapeFont {
     where
         T: Into<f64>,
     {
-        self.size = font_size.into() * 100.0;
+        self.size = (font_size.into() * 100.0).round();
         self
     }
 
-- 
2.43.0


From 3123bbcd90dea4250441deda02538952c22317b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:14 +0000
Subject: [PATCH 043/100] fix: write sheetPr children in schema order

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index d0ee892..32cb8a6 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17651,15 +17651,15 @@ impl Worksheet {
         {
             xml_start_tag(&mut self.writer, "sheetPr", &attributes);
 
-            // Write the pageSetUpPr element.
-            self.write_page_set_up_pr();
-
             // Write the tabColor element.
             self.write_tab_color();
 
             // Write the outlinePr element.
             self.write_outline_pr();
 
+            // Write the pageSetUpPr element.
+            self.write_page_set_up_pr();
+
             xml_end_tag(&mut self.writer, "sheetPr");
         } else {
             xml_empty_tag(&mut self.writer, "sheetPr", &attributes);
-- 
2.43.0


From acb3c9bb556093a4d2c12e7eb1b8ee5dd97d2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 044/100] fix: attribute name of the 2 digit text year ignored
 error

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 32cb8a6..b124608 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -20833,7 +20833,7 @@ impl fmt::Display for IgnoreError {
         match self {
             Self::FormulaError => write!(f, "evalError"),
             Self::FormulaDiffers => write!(f, "formula"),
-            Self::TwoDigitTextYear => write!(f, "TwoDigitTextYear"),
+            Self::TwoDigitTextYear => write!(f, "twoDigitTextYear"),
             Self::FormulaOmitsCells => write!(f, "formulaRange"),
             Self::DataValidationError => write!(f, "listDataValidation"),
             Self::NumberStoredAsText => write!(f, "numberStoredAsText"),
-- 
2.43.0


From f7a4ec9c986f929b64203ad963ba04779cd23fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:32 +0000
Subject: [PATCH 045/100] fix: store the first page number

---
 src/worksheet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b124608..cc13359 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18317,7 +18317,10 @@ impl Worksheet {
         }
 
         if self.first_page_number > 0 {
-            attributes.push(("useFirstPageNumber", self.first_page_number.to_string()));
+            if self.first_page_number > 1 {
+                attributes.push(("firstPageNumber", self.first_page_number.to_string()));
+            }
+            attributes.push(("useFirstPageNumber", "1".to_string()));
         }
 
         if self.print_black_and_white {
-- 
2.43.0


From 77aade48a522d307db4eae5006364b5592de2b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 046/100] fix: panic for page breaks at row or column 0 only

---
 src/worksheet.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index cc13359..031140b 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -12852,7 +12852,7 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel column limit.
-        if *breaks.last().unwrap() >= ROW_MAX {
+        if breaks.last().is_some_and(|row| *row >= ROW_MAX) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -12892,7 +12892,7 @@ impl Worksheet {
         let breaks = Self::process_pagebreaks(breaks)?;
 
         // Check max break value is within Excel col limit.
-        if *breaks.last().unwrap() >= u32::from(COL_MAX) {
+        if breaks.last().is_some_and(|col| *col >= u32::from(COL_MAX)) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
-- 
2.43.0


From d672c0b88617af8ccd35edaa1a5239409ba63bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:43 +0000
Subject: [PATCH 047/100] fix: apply the last print area and top left cell also
 when it is the default

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 031140b..923ed24 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -10019,6 +10019,7 @@ impl Worksheet {
 
         // Ignore cell (0, 0) since that is the default top-left cell.
         if row == 0 && col == 0 {
+            self.top_left_cell.clear();
             return Ok(self);
         }
 
@@ -14084,6 +14085,7 @@ impl Worksheet {
         // The print range is the entire worksheet, therefore it is the same
         // as the default, so we can ignore it.
         if first_row == 0 && first_col == 0 && last_row == ROW_MAX - 1 && last_col == COL_MAX - 1 {
+            self.print_area_defined_name.in_use = false;
             return Ok(self);
         }
 
-- 
2.43.0


From 95adab4e45d080b03392692f2445dbe2040e7b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 048/100] fix: default names of pushed worksheets collided with
 added ones

---
 src/workbook.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index adbe5c5..0c85210 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1214,8 +1214,15 @@ impl Workbook {
     /// src="https://rustxlsxwriter.github.io/images/workbook_push_worksheet.png">
     ///
     pub fn push_worksheet(&mut self, mut worksheet: Worksheet) {
+        let name = if worksheet.is_chartsheet {
+            self.num_chartsheets += 1;
+            format!("Chart{}", self.num_chartsheets)
+        } else {
+            self.num_worksheets += 1;
+            format!("Sheet{}", self.num_worksheets)
+        };
+
         if worksheet.name().is_empty() {
-            let name = format!("Sheet{}", self.worksheets.len() + 1);
             worksheet.set_name(&name).unwrap();
         }
 
-- 
2.43.0


From e482c1b03ab12c2f6c066d2f14739126f6cbbbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:37 +0000
Subject: [PATCH 049/100] fix: the default active sheet and the first tab of
 one save stayed for the next

---
 src/workbook.rs  | 7 +++++--
 src/worksheet.rs | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 0c85210..144fb87 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2217,8 +2217,10 @@ impl Workbook {
     // sheet. If none has been set, then defaults to the first sheet, like Excel.
     fn set_active_worksheets(&mut self) {
         let mut active_index = 0;
+        self.first_sheet = 0;
 
-        for (i, worksheet) in self.worksheets.iter().enumerate() {
+        for (i, worksheet) in self.worksheets.iter_mut().enumerate() {
+            worksheet.is_active_tab = false;
             if worksheet.active {
                 active_index = i;
             }
@@ -2226,7 +2228,8 @@ impl Workbook {
                 self.first_sheet = i as u16;
             }
         }
-        self.worksheets[active_index].set_active(true);
+        self.worksheets[active_index].is_active_tab = true;
+        self.worksheets[active_index].visible = Visible::Default;
         self.active_tab = active_index as u16;
     }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 923ed24..eec4c19 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1493,6 +1493,7 @@ pub struct Worksheet {
     pub(crate) name: String,
     pub(crate) sheet_index: usize,
     pub(crate) active: bool,
+    pub(crate) is_active_tab: bool,
     pub(crate) selected: bool,
     pub(crate) visible: Visible,
     pub(crate) first_sheet: bool,
@@ -1737,6 +1738,7 @@ impl Worksheet {
             name: String::new(),
             sheet_index: 0,
             active: false,
+            is_active_tab: false,
             selected: false,
             visible: Visible::Default,
             first_sheet: false,
@@ -17763,7 +17765,7 @@ impl Worksheet {
             attributes.push(("rightToLeft", "1".to_string()));
         }
 
-        if self.selected {
+        if self.selected || self.is_active_tab {
             attributes.push(("tabSelected", "1".to_string()));
         }
 
-- 
2.43.0


From e62ac3d9bf3c26ce8e1a0807dd5e2714d83c513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 050/100] fix: RFC3339 form of dates with milliseconds or from
 serial numbers

---
 src/datetime.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 32b9f0d..1ed3e53 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -1277,10 +1277,27 @@ impl ExcelDateTime {
 
     // Convert to UTC date in RFC 3339 format. This is used in custom
     // properties.
+    #[allow(clippy::cast_possible_truncation)]
     pub(crate) fn to_rfc3339(&self) -> String {
+        // Convert serial datetimes to date components via Unix time. Excel's
+        // serial dates are off by one before its false leapday.
+        if let Some(serial) = self.serial_datetime {
+            let days = if serial < 60.0 { serial + 1.0 } else { serial };
+            let timestamp = ((days - 25_569.0) * DAY_SECONDS as f64).round() as i64;
+
+            if let Ok(datetime) = Self::from_timestamp(timestamp) {
+                return datetime.to_rfc3339();
+            }
+        }
+
         format!(
             "{}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-            self.year, self.month, self.day, self.hour, self.min, self.sec
+            self.year,
+            self.month,
+            self.day,
+            self.hour,
+            self.min,
+            self.sec.trunc()
         )
     }
 
-- 
2.43.0


From e515997781140bcb3853008d3385fbf844c4199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 051/100] fix: rows without own height follow the default row
 height

---
 src/worksheet.rs | 43 +++++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index eec4c19..1bdcae2 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6439,10 +6439,10 @@ impl Worksheet {
 
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
-            Some(row_options) => row_options.height = height,
+            Some(row_options) => row_options.height = Some(height),
             None => {
                 let row_options = RowOptions {
-                    height,
+                    height: Some(height),
                     xf_index: 0,
                     hidden: false,
                     level: 0,
@@ -6599,7 +6599,7 @@ impl Worksheet {
             }
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index,
                     hidden: false,
                     level: 0,
@@ -7622,7 +7622,7 @@ impl Worksheet {
             Some(row_options) => row_options.hidden = true,
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index: 0,
                     hidden: true,
                     level: 0,
@@ -16823,7 +16823,8 @@ impl Worksheet {
                     // the "object_movement" is MoveAndSizeWithCellsAfter.
                     0u32
                 } else {
-                    (row_options.height * 4.0 / 3.0) as u32
+                    let height = row_options.height.unwrap_or(self.user_default_row_height);
+                    (height * 4.0 / 3.0) as u32
                 }
             }
             None => (self.user_default_row_height * 4.0 / 3.0) as u32,
@@ -17220,7 +17221,7 @@ impl Worksheet {
             }
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index: 0,
                     hidden: collapsed,
                     level: 1,
@@ -17247,7 +17248,7 @@ impl Worksheet {
             Some(row_options) => row_options.collapsed = true,
             None => {
                 let row_options = RowOptions {
-                    height: self.user_default_row_height,
+                    height: None,
                     xf_index: 0,
                     hidden: false,
                     level: 0,
@@ -18950,6 +18951,7 @@ impl Worksheet {
 
         if let Some(row_options) = row_options {
             let xf_index = row_options.xf_index;
+            let height = row_options.height.unwrap_or(self.user_default_row_height);
 
             if xf_index != 0 {
                 let xf_index = self.get_global_xf_index(xf_index);
@@ -18958,11 +18960,8 @@ impl Worksheet {
             }
 
             // Only add ht parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
-                    && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
-            {
-                attributes.push(("ht", row_options.height.to_string()));
+            if height != DEFAULT_ROW_HEIGHT || self.user_default_row_height != DEFAULT_ROW_HEIGHT {
+                attributes.push(("ht", height.to_string()));
             }
 
             if row_options.hidden {
@@ -18970,10 +18969,7 @@ impl Worksheet {
             }
 
             // Only add customHeight parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
-                    && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
-            {
+            if height != DEFAULT_ROW_HEIGHT || self.user_default_row_height != DEFAULT_ROW_HEIGHT {
                 attributes.push(("customHeight", "1".to_string()));
             }
 
@@ -19013,6 +19009,7 @@ impl Worksheet {
 
         if let Some(row_options) = row_options {
             let xf_index = row_options.xf_index;
+            let height = row_options.height.unwrap_or(self.user_default_row_height);
 
             if xf_index != 0 {
                 attributes.push(("s", xf_index.to_string()));
@@ -19020,11 +19017,8 @@ impl Worksheet {
             }
 
             // Only add ht parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
-                    && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
-            {
-                attributes.push(("ht", row_options.height.to_string()));
+            if height != DEFAULT_ROW_HEIGHT || self.user_default_row_height != DEFAULT_ROW_HEIGHT {
+                attributes.push(("ht", height.to_string()));
             }
 
             if row_options.hidden {
@@ -19032,10 +19026,7 @@ impl Worksheet {
             }
 
             // Only add customHeight parameter if the height is non-default.
-            if row_options.height != DEFAULT_ROW_HEIGHT
-                || (row_options.height == DEFAULT_ROW_HEIGHT
-                    && self.user_default_row_height != DEFAULT_ROW_HEIGHT)
-            {
+            if height != DEFAULT_ROW_HEIGHT || self.user_default_row_height != DEFAULT_ROW_HEIGHT {
                 attributes.push(("customHeight", "1".to_string()));
             }
         } else if self.user_default_row_height != DEFAULT_ROW_HEIGHT {
@@ -20517,7 +20508,7 @@ impl Default for CellRange {
 
 #[derive(Clone)]
 struct RowOptions {
-    height: f64,
+    height: Option<f64>,
     xf_index: u32,
     level: u8,
     hidden: bool,
-- 
2.43.0


From a2bd9d6e0544262e938e523305ab0715f6a54743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:07 +0000
Subject: [PATCH 052/100] fix: declare the outline level of first level groups

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 1bdcae2..8c39463 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17229,6 +17229,7 @@ impl Worksheet {
                     format: None,
                 };
                 self.changed_rows.insert(row, row_options);
+                self.max_outline_row_level = std::cmp::max(1, self.max_outline_row_level);
             }
         }
 
@@ -17328,6 +17329,7 @@ impl Worksheet {
                     format: None,
                 };
                 self.changed_cols.insert(column, col_options);
+                self.max_outline_col_level = std::cmp::max(1, self.max_outline_col_level);
             }
         }
 
-- 
2.43.0


From 8ff5ada641f25745ddc7928715e35c1e8123ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:49 +0000
Subject: [PATCH 053/100] fix: collapsed groups up to the last row or column
 and refused groups

---
 src/worksheet.rs | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8c39463..13240bd 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -6994,9 +6994,14 @@ impl Worksheet {
         last_row: RowNum,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Set the collapsed property to the row after the collapsed group.
-        self.set_collapsed_row(last_row + 1)?;
+        self.set_grouped_rows(first_row, last_row, true)?;
 
-        self.set_grouped_rows(first_row, last_row, true)
+        // There is no row for the symbol after the last row of the worksheet.
+        if last_row + 1 < ROW_MAX {
+            self.set_collapsed_row(last_row + 1)?;
+        }
+
+        Ok(self)
     }
 
     /// Group a range of columns into a worksheet outline group.
@@ -7368,9 +7373,14 @@ impl Worksheet {
         last_col: ColNum,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Set the collapsed property to the column after the collapsed group.
-        self.set_collapsed_column(last_col + 1)?;
+        self.set_grouped_columns(first_col, last_col, true)?;
 
-        self.set_grouped_columns(first_col, last_col, true)
+        // There is no column for the symbol after the last one of the worksheet.
+        if last_col + 1 < COL_MAX {
+            self.set_collapsed_column(last_col + 1)?;
+        }
+
+        Ok(self)
     }
 
     /// Place the row outline group expand/collapse symbols above the range.
@@ -17176,7 +17186,7 @@ impl Worksheet {
         let min_col = self.get_min_col();
 
         // Check rows are in the allowed range.
-        if !self.check_dimensions(first_row, min_col) || !self.check_dimensions(last_row, min_col) {
+        if first_row >= ROW_MAX || last_row >= ROW_MAX {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17185,6 +17195,16 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the group depth before changing any row.
+        if (first_row..=last_row)
+            .any(|row| self.changed_rows.get(&row).is_some_and(|r| r.level >= 7))
+        {
+            return Err(XlsxError::MaxGroupLevelExceeded);
+        }
+
+        self.check_dimensions(first_row, min_col);
+        self.check_dimensions(last_row, min_col);
+
         // Write group outline for each row.
         for row in first_row..=last_row {
             self.set_grouped_row(row, collapsed)?;
@@ -17275,7 +17295,7 @@ impl Worksheet {
         let min_row = self.get_min_row();
 
         // Check columns are in the allowed range.
-        if !self.check_dimensions(min_row, first_col) || !self.check_dimensions(min_row, last_col) {
+        if first_col >= COL_MAX || last_col >= COL_MAX {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -17284,6 +17304,16 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        // Check the group depth before changing any column.
+        if (first_col..=last_col)
+            .any(|col| self.changed_cols.get(&col).is_some_and(|c| c.level >= 7))
+        {
+            return Err(XlsxError::MaxGroupLevelExceeded);
+        }
+
+        self.check_dimensions(min_row, first_col);
+        self.check_dimensions(min_row, last_col);
+
         // Write group outline for each column.
         for col in first_col..=last_col {
             self.set_grouped_column(col, collapsed)?;
-- 
2.43.0


From 04241d611d2738a5401fa4193605c77487b5b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 054/100] fix: store outline levels of rows in constant memory
 mode

---
 src/worksheet.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 13240bd..21437ed 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -19061,6 +19061,14 @@ impl Worksheet {
             if height != DEFAULT_ROW_HEIGHT || self.user_default_row_height != DEFAULT_ROW_HEIGHT {
                 attributes.push(("customHeight", "1".to_string()));
             }
+
+            if row_options.level > 0 {
+                attributes.push(("outlineLevel", row_options.level.to_string()));
+            }
+
+            if row_options.collapsed {
+                attributes.push(("collapsed", "1".to_string()));
+            }
         } else if self.user_default_row_height != DEFAULT_ROW_HEIGHT {
             attributes.push(("ht", self.user_default_row_height.to_string()));
             attributes.push(("customHeight", "1".to_string()));
-- 
2.43.0


From db2523631790f2f77b4bd02fe080e4a52b6cba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 055/100] fix: match autofilter conditions by the type of the
 cell

---
 src/worksheet.rs | 152 +++++++++++++++++++++++------------------------
 1 file changed, 75 insertions(+), 77 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 21437ed..33296c3 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -14830,9 +14830,13 @@ impl Worksheet {
                     }
                     CellType::Number { number, .. } => {
                         for filter in &filter_condition.list {
-                            if filter.data_type == FilterDataType::Number
-                                && number == &filter.number
-                            {
+                            // Numbers in filters are stored in the same way as strings.
+                            let filter_number = match filter.data_type {
+                                FilterDataType::Number => Some(filter.number),
+                                FilterDataType::String => filter.string.trim().parse().ok(),
+                            };
+
+                            if filter_number == Some(*number) {
                                 return true;
                             }
                         }
@@ -14901,83 +14905,77 @@ impl Worksheet {
         col_num: ColNum,
         filter: &FilterData,
     ) -> bool {
-        if let Some(columns) = self.data_table.get(&row_num) {
-            if let Some(cell) = columns.get(&col_num) {
-                match cell {
-                    CellType::String { string, .. }
-                    | CellType::RichString {
-                        raw_string: string, ..
-                    } => {
-                        let cell_string = string.clone().to_lowercase().trim().to_string();
-                        let filter_string = filter.string.to_lowercase().trim().to_string();
-
-                        match filter.criteria {
-                            FilterCriteria::EqualTo => return cell_string == filter_string,
-                            FilterCriteria::NotEqualTo => return cell_string != filter_string,
-                            FilterCriteria::LessThan => return cell_string < filter_string,
-                            FilterCriteria::GreaterThan => return cell_string > filter_string,
-                            FilterCriteria::LessThanOrEqualTo => {
-                                return cell_string <= filter_string
-                            }
-                            FilterCriteria::GreaterThanOrEqualTo => {
-                                return cell_string >= filter_string
-                            }
-                            FilterCriteria::EndsWith => {
-                                return cell_string.ends_with(&filter_string)
-                            }
-                            FilterCriteria::DoesNotEndWith => {
-                                return !cell_string.ends_with(&filter_string)
-                            }
-                            FilterCriteria::BeginsWith => {
-                                return cell_string.starts_with(&filter_string)
-                            }
-                            FilterCriteria::DoesNotBeginWith => {
-                                return !cell_string.starts_with(&filter_string)
-                            }
-                            FilterCriteria::Contains => {
-                                return cell_string.contains(&filter_string)
-                            }
-                            FilterCriteria::DoesNotContain => {
-                                return !cell_string.contains(&filter_string)
-                            }
-                        }
-                    }
-                    CellType::Number { number, .. } => {
-                        if filter.data_type == FilterDataType::Number {
-                            match filter.criteria {
-                                FilterCriteria::EqualTo => return *number == filter.number,
-                                FilterCriteria::LessThan => return *number < filter.number,
-                                FilterCriteria::NotEqualTo => return *number != filter.number,
-                                FilterCriteria::GreaterThan => return *number > filter.number,
-                                FilterCriteria::LessThanOrEqualTo => {
-                                    return *number <= filter.number
-                                }
-                                FilterCriteria::GreaterThanOrEqualTo => {
-                                    return *number >= filter.number
-                                }
-                                _ => {}
-                            }
-                        }
-                    }
-                    CellType::Blank { .. } => {
-                        // We need to handle "match non-blanks" as a special condition.
-                        // Excel converts this to a custom filter of `!= " "`.
-                        if filter.criteria == FilterCriteria::NotEqualTo && filter.string == " " {
-                            return false;
-                        }
-                    }
-                    _ => {
-                        // Any existing non-blank cell should match the "non-blanks" criteria
-                        // explained above.
-                        if filter.criteria == FilterCriteria::NotEqualTo && filter.string == " " {
-                            return true;
-                        }
-                    }
+        let cell = self
+            .data_table
+            .get(&row_num)
+            .and_then(|columns| columns.get(&col_num));
+
+        // Negated conditions match all cells apart from those that match the
+        // positive condition, regardless of the type.
+        let is_negated = matches!(
+            filter.criteria,
+            FilterCriteria::NotEqualTo
+                | FilterCriteria::DoesNotBeginWith
+                | FilterCriteria::DoesNotEndWith
+                | FilterCriteria::DoesNotContain
+        );
+
+        // Check for the Excel "Non-blanks" condition.
+        let is_non_blanks = filter.criteria == FilterCriteria::NotEqualTo && filter.string == " ";
+
+        // Numbers in filters are stored in the same way as strings.
+        let filter_number = match filter.data_type {
+            FilterDataType::Number => Some(filter.number),
+            FilterDataType::String => filter.string.trim().parse::<f64>().ok(),
+        };
+
+        match cell {
+            Some(
+                CellType::String { string, .. }
+                | CellType::RichString {
+                    raw_string: string, ..
+                },
+            ) => {
+                let cell_string = string.clone().to_lowercase().trim().to_string();
+                let filter_string = filter.string.to_lowercase().trim().to_string();
+                let is_text = filter_number.is_none();
+
+                match filter.criteria {
+                    FilterCriteria::EqualTo => cell_string == filter_string,
+                    FilterCriteria::NotEqualTo => cell_string != filter_string,
+                    FilterCriteria::LessThan => is_text && cell_string < filter_string,
+                    FilterCriteria::GreaterThan => is_text && cell_string > filter_string,
+                    FilterCriteria::LessThanOrEqualTo => is_text && cell_string <= filter_string,
+                    FilterCriteria::GreaterThanOrEqualTo => is_text && cell_string >= filter_string,
+                    FilterCriteria::EndsWith => cell_string.ends_with(&filter_string),
+                    FilterCriteria::DoesNotEndWith => !cell_string.ends_with(&filter_string),
+                    FilterCriteria::BeginsWith => cell_string.starts_with(&filter_string),
+                    FilterCriteria::DoesNotBeginWith => !cell_string.starts_with(&filter_string),
+                    FilterCriteria::Contains => cell_string.contains(&filter_string),
+                    FilterCriteria::DoesNotContain => !cell_string.contains(&filter_string),
                 }
             }
-        }
+            Some(CellType::Number { number, .. } | CellType::DateTime { number, .. }) => {
+                let Some(filter_number) = filter_number else {
+                    return is_negated;
+                };
 
-        false
+                match filter.criteria {
+                    FilterCriteria::EqualTo => *number == filter_number,
+                    FilterCriteria::LessThan => *number < filter_number,
+                    FilterCriteria::NotEqualTo => *number != filter_number,
+                    FilterCriteria::GreaterThan => *number > filter_number,
+                    FilterCriteria::LessThanOrEqualTo => *number <= filter_number,
+                    FilterCriteria::GreaterThanOrEqualTo => *number >= filter_number,
+                    _ => is_negated,
+                }
+            }
+            // Cells without data are blanks in Excel.
+            Some(CellType::Blank { .. }) | None => is_negated && !is_non_blanks,
+
+            // We don't currently try to handle matching any other data types.
+            _ => is_negated,
+        }
     }
 
     // Process pagebreaks to sort them, remove duplicates and check the number
-- 
2.43.0


From 0b9434b2879fdd67626b64e60aa8265465b9c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 056/100] fix: rows hidden by a filter stayed hidden after
 changing the filter

---
 src/worksheet.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 33296c3..c3ca09d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1609,6 +1609,7 @@ pub struct Worksheet {
     filter_automatic_off: bool,
     has_drawing_object_linkage: bool,
     cells_with_autofilter: HashMap<(RowNum, ColNum), (FilterType, CellRange)>,
+    filter_hidden_rows: HashSet<RowNum>,
     conditional_formats: BTreeMap<String, Vec<(u32, Box<dyn ConditionalFormat + Sync + Send>)>>,
     conditional_format_order: Vec<String>,
     data_validations: BTreeMap<String, DataValidation>,
@@ -1824,6 +1825,7 @@ impl Worksheet {
             notes: BTreeMap::new(),
             has_drawing_object_linkage: false,
             cells_with_autofilter: HashMap::new(),
+            filter_hidden_rows: HashSet::new(),
             conditional_formats: BTreeMap::new(),
             conditional_format_order: vec![],
             data_validations: BTreeMap::new(),
@@ -7627,6 +7629,9 @@ impl Worksheet {
             return Err(XlsxError::RowColumnLimitError);
         }
 
+        // The row is hidden regardless of any filter.
+        self.filter_hidden_rows.remove(&row);
+
         // Update an existing row metadata object or create a new one.
         match self.changed_rows.get_mut(&row) {
             Some(row_options) => row_options.hidden = true,
@@ -14763,6 +14768,13 @@ impl Worksheet {
     // Hide any rows in the autofilter range that don't match the autofilter
     // conditions, like Excel does at runtime.
     pub(crate) fn hide_autofilter_rows(&mut self) {
+        // Show the rows that were hidden by the conditions of an earlier save.
+        for row_num in mem::take(&mut self.filter_hidden_rows) {
+            if let Some(row_options) = self.changed_rows.get_mut(&row_num) {
+                row_options.hidden = false;
+            }
+        }
+
         if self.filter_conditions.is_empty() || self.filter_automatic_off {
             return;
         }
@@ -14778,18 +14790,31 @@ impl Worksheet {
                 if filter_condition.is_list_filter {
                     // Handle list filters.
                     if !self.row_matches_list_filter(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.hide_filtered_row(row_num);
                     }
                 } else {
                     // Handle custom filters.
                     if !self.row_matches_custom_filters(row_num, *col_num, &filter_condition) {
-                        self.set_row_hidden(row_num).unwrap();
+                        self.hide_filtered_row(row_num);
                     }
                 }
             }
         }
     }
 
+    // Hide a row that doesn't match the filter conditions, unless it is already
+    // hidden by the user.
+    fn hide_filtered_row(&mut self, row_num: RowNum) {
+        if let Some(row_options) = self.changed_rows.get(&row_num) {
+            if row_options.hidden {
+                return;
+            }
+        }
+
+        self.set_row_hidden(row_num).unwrap();
+        self.filter_hidden_rows.insert(row_num);
+    }
+
     // Check if the data in a cell matches one of the values in the list of
     // filter conditions (which in the list filter case is a list of strings or
     // number values).
-- 
2.43.0


From 10a31262f9ac0a8fe14a0f22f9cae5ec4a8bbf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 057/100] fix: refused autofilter ranges were applied in part

---
 src/worksheet.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index c3ca09d..91add14 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8453,23 +8453,11 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
-        // Store the defined name information.
-        self.autofilter_defined_name.in_use = true;
-        self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
-        self.autofilter_defined_name.first_row = first_row;
-        self.autofilter_defined_name.first_col = first_col;
-        self.autofilter_defined_name.last_row = last_row;
-        self.autofilter_defined_name.last_col = last_col;
-
         let autofilter_area = CellRange::new(first_row, first_col, last_row, last_col);
 
-        // Clear any previous filters.
-        self.filter_conditions = BTreeMap::new();
-
-        // Store the cells with the autofilter dropdown for the autofit calc.
+        // Check that the worksheet autofilter doesn't overlap a table
+        // autofilter.
         for col in first_col..=last_col {
-            // Check that the worksheet autofilter doesn't overlap a table
-            // autofilter.
             let filter_data = self.cells_with_autofilter.get(&(first_row, col));
             if let Some((filter_type, filter_range)) = filter_data {
                 if *filter_type == FilterType::Table {
@@ -8479,7 +8467,23 @@ impl Worksheet {
                     ));
                 }
             }
+        }
 
+        // Store the defined name information.
+        self.autofilter_defined_name.in_use = true;
+        self.autofilter_defined_name.name_type = DefinedNameType::Autofilter;
+        self.autofilter_defined_name.first_row = first_row;
+        self.autofilter_defined_name.first_col = first_col;
+        self.autofilter_defined_name.last_row = last_row;
+        self.autofilter_defined_name.last_col = last_col;
+
+        // Clear any previous filters.
+        self.filter_conditions = BTreeMap::new();
+        self.cells_with_autofilter
+            .retain(|_, (filter_type, _)| *filter_type != FilterType::Worksheet);
+
+        // Store the cells with the autofilter dropdown for the autofit calc.
+        for col in first_col..=last_col {
             self.cells_with_autofilter.insert(
                 (first_row, col),
                 (FilterType::Worksheet, autofilter_area.clone()),
-- 
2.43.0


From 620912167eae1c0b8bbff06ca1e7c1d0e677682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:55 +0000
Subject: [PATCH 058/100] fix: refused merged ranges and tables were applied in
 part

---
 src/worksheet.rs | 115 +++++++++++++++++++++++++----------------------
 1 file changed, 61 insertions(+), 54 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 91add14..a2ad06d 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -4976,8 +4976,8 @@ impl Worksheet {
         format: &Format,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions(first_row, first_col)
-            || !self.check_dimensions(last_row, last_col)
+        if !self.check_dimensions_only(first_row, first_col)
+            || !self.check_dimensions_only(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
@@ -4992,6 +4992,24 @@ impl Worksheet {
             return Err(XlsxError::MergeRangeSingleCell);
         }
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the merged range overlaps any previous merged range. This is
+        // a major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.merged_cells.get(&(row, col)) {
+                    let previous_cell_range = self.merged_ranges.get(*index).unwrap();
+                    return Err(XlsxError::MergeRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
         // Write the first cell in the range.
         self.write_string_with_format(first_row, first_col, string, format)?;
 
@@ -5010,29 +5028,13 @@ impl Worksheet {
         }
         self.set_writing_ahead(false);
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the merged range overlaps any previous merged range. This is
-        // a major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
+        // Store the merge range if everything was okay.
         let new_index = self.merged_ranges.len();
         for row in first_row..=last_row {
             for col in first_col..=last_col {
-                match self.merged_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.merged_ranges.get(*index).unwrap();
-                        return Err(XlsxError::MergeRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.merged_cells.insert((row, col), new_index),
-                };
+                self.merged_cells.insert((row, col), new_index);
             }
         }
-
-        // Store the merge range if everything was okay.
         self.merged_ranges.push(cell_range);
 
         Ok(self)
@@ -8804,6 +8806,39 @@ impl Worksheet {
             ));
         }
 
+        // Create a cell range for storage and range testing.
+        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
+
+        // Check if the table range overlaps any previous table range. This is a
+        // major error in Excel. Note, the ranges are stored in a separate Vec
+        // to the cells to cut down on storage size.
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                if let Some(index) = self.table_cells.get(&(row, col)) {
+                    let previous_cell_range = self.table_ranges.get(*index).unwrap();
+                    return Err(XlsxError::TableRangeOverlaps(
+                        cell_range.to_error_string(),
+                        previous_cell_range.to_error_string(),
+                    ));
+                }
+            }
+        }
+
+        // Check that the table autofilter doesn't overlap the worksheet autofilter.
+        if table.show_autofilter {
+            for col in first_col..=last_col {
+                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
+                if let Some((filter_type, filter_range)) = filter_data {
+                    if *filter_type == FilterType::Worksheet {
+                        return Err(XlsxError::AutofilterRangeOverlaps(
+                            cell_range.to_error_string(),
+                            filter_range.to_error_string(),
+                        ));
+                    }
+                }
+            }
+        }
+
         let default_headers =
             self.default_table_headers(first_row, first_col, last_col, table.show_header_row);
 
@@ -8876,43 +8911,9 @@ impl Worksheet {
             self.set_writing_ahead(false);
         }
 
-        // Create a cell range for storage and range testing.
-        let cell_range = CellRange::new(first_row, first_col, last_row, last_col);
-
-        // Check if the table range overlaps any previous table range. This is a
-        // major error in Excel. Note, the ranges are stored in a separate Vec
-        // to the cells to cut down on storage size.
-        let new_index = self.table_ranges.len();
-        for row in first_row..=last_row {
-            for col in first_col..=last_col {
-                match self.table_cells.get_mut(&(row, col)) {
-                    Some(index) => {
-                        let previous_cell_range = self.table_ranges.get(*index).unwrap();
-                        return Err(XlsxError::TableRangeOverlaps(
-                            cell_range.to_error_string(),
-                            previous_cell_range.to_error_string(),
-                        ));
-                    }
-                    None => self.table_cells.insert((row, col), new_index),
-                };
-            }
-        }
-
         // Store the cells with the autofilter dropdown for the autofit calc.
         if table.show_autofilter {
             for col in first_col..=last_col {
-                // Check that the table autofilter doesn't overlap the worksheet
-                // autofilter.
-                let filter_data = self.cells_with_autofilter.get(&(first_row, col));
-                if let Some((filter_type, filter_range)) = filter_data {
-                    if *filter_type == FilterType::Worksheet {
-                        return Err(XlsxError::AutofilterRangeOverlaps(
-                            table.cell_range.to_error_string(),
-                            filter_range.to_error_string(),
-                        ));
-                    }
-                }
-
                 self.cells_with_autofilter.insert(
                     (first_row, col),
                     (FilterType::Table, table.cell_range.clone()),
@@ -8921,6 +8922,12 @@ impl Worksheet {
         }
 
         // Store the table if everything was okay.
+        let new_index = self.table_ranges.len();
+        for row in first_row..=last_row {
+            for col in first_col..=last_col {
+                self.table_cells.insert((row, col), new_index);
+            }
+        }
         self.table_ranges.push(cell_range);
         self.tables.push(table);
 
-- 
2.43.0


From 10fcc8b8423660fa4c9be74ed1c9e44bb88bdf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:57 +0000
Subject: [PATCH 059/100] fix: automatic table names and column formats changed
 with each save

---
 src/table.rs     | 21 ++++++++++++++-------
 src/workbook.rs  |  7 ++++---
 src/worksheet.rs |  7 ++-----
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index b579f1b..2fb6b07 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -1209,15 +1209,20 @@ impl Table {
         xml_end_tag(&mut self.writer, "table");
     }
 
+    // Get the user defined table name or the automatic name for the table id.
+    pub(crate) fn display_name(&self) -> String {
+        if self.name.is_empty() {
+            format!("Table{}", self.index)
+        } else {
+            self.name.clone()
+        }
+    }
+
     // Write the <table> element.
     fn write_table(&mut self) {
         let schema = "http://schemas.openxmlformats.org/spreadsheetml/2006/main".to_string();
         let range = self.cell_range.to_range_string();
-        let name = if self.name.is_empty() {
-            format!("Table{}", self.index)
-        } else {
-            self.name.clone()
-        };
+        let name = self.display_name();
 
         let mut attributes = vec![
             ("xmlns", schema),
@@ -1277,8 +1282,8 @@ impl Table {
             attributes.push(("totalsRowFunction", column.total_function.to_string()));
         }
 
-        if let Some(format) = &column.format {
-            attributes.push(("dataDxfId", format.dxf_index.to_string()));
+        if column.format.is_some() {
+            attributes.push(("dataDxfId", column.dxf_index.to_string()));
         }
 
         if column.formula.is_some() || matches!(&column.total_function, TableFunction::Custom(_)) {
@@ -1420,6 +1425,7 @@ pub struct TableColumn {
     pub(crate) formula: Option<Formula>,
     pub(crate) format: Option<Format>,
     pub(crate) header_format: Option<Format>,
+    pub(crate) dxf_index: u32,
 }
 
 impl TableColumn {
@@ -1433,6 +1439,7 @@ impl TableColumn {
             formula: None,
             format: None,
             header_format: None,
+            dxf_index: 0,
         }
     }
 
diff --git a/src/workbook.rs b/src/workbook.rs
index 144fb87..6462982 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2381,11 +2381,12 @@ impl Workbook {
         // Check for duplicate table names.
         for worksheet in &self.worksheets {
             for table in &worksheet.tables {
-                if seen_table_names.contains(&table.name.to_lowercase()) {
-                    return Err(XlsxError::TableNameReused(table.name.to_string()));
+                let name = table.display_name();
+                if seen_table_names.contains(&name.to_lowercase()) {
+                    return Err(XlsxError::TableNameReused(name));
                 }
 
-                seen_table_names.insert(table.name.to_lowercase());
+                seen_table_names.insert(name.to_lowercase());
             }
         }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index a2ad06d..36a6849 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16627,14 +16627,11 @@ impl Worksheet {
     pub(crate) fn prepare_worksheet_tables(&mut self, mut table_id: u32) -> u32 {
         for table in &mut self.tables {
             table.index = table_id;
-            if table.name.is_empty() {
-                table.name = format!("Table{table_id}");
-            }
 
             // Change any column format local index from local to global.
             for column in &mut table.columns {
-                if let Some(format) = column.format.as_mut() {
-                    format.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
+                if let Some(format) = &column.format {
+                    column.dxf_index = self.global_dxf_indices[format.dxf_index as usize];
                 }
             }
 
-- 
2.43.0


From a37038f49d19155078d7071c2be1b1f5e9c4d854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 060/100] fix: time zones, oversized parts and invalid seconds
 in dates and times

---
 src/datetime.rs | 52 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/datetime.rs b/src/datetime.rs
index 1ed3e53..e79cf9d 100644
--- a/src/datetime.rs
+++ b/src/datetime.rs
@@ -243,37 +243,48 @@ impl ExcelDateTime {
     ///
     #[allow(clippy::get_first)]
     pub fn parse_from_str(datetime: &str) -> Result<ExcelDateTime, XlsxError> {
+        let date_string = datetime;
+
+        // Ignore any timezone offset after the time.
+        let datetime = match datetime.find(':') {
+            Some(start) => match datetime[start..].find(['+', '-']) {
+                Some(offset) => &datetime[..start + offset],
+                None => datetime,
+            },
+            None => datetime,
+        };
+
         let date_parts: Vec<&str> = datetime.trim().split(&['-', 'T', 'Z', ' ', ':']).collect();
 
         // Match date and optional time.
         if datetime.contains('-') {
             let year = match date_parts.get(0) {
-                Some(token) => token.parse::<u16>().unwrap_or_default(),
+                Some(token) => Self::parse_number(token, date_string)?,
                 None => 0,
             };
 
             let month = match date_parts.get(1) {
-                Some(token) => token.parse::<u8>().unwrap_or_default(),
+                Some(token) => Self::parse_number(token, date_string)?,
                 None => 0,
             };
 
             let day = match date_parts.get(2) {
-                Some(token) => token.parse::<u8>().unwrap_or_default(),
+                Some(token) => Self::parse_number(token, date_string)?,
                 None => 0,
             };
 
             let hour = match date_parts.get(3) {
-                Some(token) => token.parse::<u16>().unwrap_or_default(),
+                Some(token) => Self::parse_number(token, date_string)?,
                 None => 0,
             };
 
             let min = match date_parts.get(4) {
-                Some(token) => token.parse::<u8>().unwrap_or_default(),
+                Some(token) => Self::parse_number(token, date_string)?,
                 None => 0,
             };
 
             let sec = match date_parts.get(5) {
-                Some(token) => token.parse::<f64>().unwrap_or_default(),
+                Some(token) => Self::parse_number(token, date_string)?,
                 None => 0.0,
             };
 
@@ -282,17 +293,17 @@ impl ExcelDateTime {
         // Match time only.
         else if datetime.contains(':') {
             let hour = match date_parts.get(0) {
-                Some(token) => token.parse::<u16>().unwrap_or_default(),
+                Some(token) => Self::parse_number(token, date_string)?,
                 None => 0,
             };
 
             let min = match date_parts.get(1) {
-                Some(token) => token.parse::<u8>().unwrap_or_default(),
+                Some(token) => Self::parse_number(token, date_string)?,
                 None => 0,
             };
 
             let sec = match date_parts.get(2) {
-                Some(token) => token.parse::<f64>().unwrap_or_default(),
+                Some(token) => Self::parse_number(token, date_string)?,
                 None => 0.0,
             };
 
@@ -300,10 +311,29 @@ impl ExcelDateTime {
         }
         // No match.
         else {
-            Err(XlsxError::DateTimeParseError(datetime.to_string()))
+            Err(XlsxError::DateTimeParseError(date_string.to_string()))
         }
     }
 
+    // Parse the number at the start of a date/time string token. Text that isn't
+    // part of the date/time is ignored but invalid numbers are errors.
+    fn parse_number<T>(token: &str, date_string: &str) -> Result<T, XlsxError>
+    where
+        T: std::str::FromStr + Default,
+    {
+        let end = token
+            .find(|c: char| !c.is_ascii_digit() && c != '.')
+            .unwrap_or(token.len());
+
+        if end == 0 {
+            return Ok(T::default());
+        }
+
+        token[..end]
+            .parse::<T>()
+            .map_err(|_| XlsxError::DateTimeParseError(date_string.to_string()))
+    }
+
     /// Create a `ExcelDateTime` instance from years, months and days.
     ///
     /// # Parameters
@@ -976,7 +1006,7 @@ impl ExcelDateTime {
         }
 
         // Excel only supports milli-seconds.
-        if sec > 59.999 {
+        if !(0.0..=59.999).contains(&sec) {
             return Err(XlsxError::DateTimeRangeError(format!(
                 "Seconds: '{sec}' outside Excel range of 0-59.999"
             )));
-- 
2.43.0


From a7fa9eaea1f32ea9b09354da96916dbd9dd13e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 061/100] fix: refused writes leave the worksheet dimensions
 alone

---
 src/worksheet.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 36a6849..3f4ab53 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -5755,7 +5755,7 @@ impl Worksheet {
         note: &Note,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check row and columns are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -5765,6 +5765,8 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        self.check_dimensions(row, col);
+
         // Set the cell that the Note refers to. This is different form the cell
         // where the note appears.
         let mut note = note.clone();
@@ -15124,7 +15126,7 @@ impl Worksheet {
         }
 
         // Check row and col are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15133,6 +15135,8 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        self.check_dimensions(row, col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15189,7 +15193,7 @@ impl Worksheet {
         }
 
         // Check row and col are in the allowed range.
-        if !self.check_dimensions(row, col) {
+        if !self.check_dimensions_only(row, col) {
             return Err(XlsxError::RowColumnLimitError);
         }
 
@@ -15198,6 +15202,8 @@ impl Worksheet {
             return Err(XlsxError::MaxStringLengthExceeded);
         }
 
+        self.check_dimensions(row, col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
@@ -15286,8 +15292,8 @@ impl Worksheet {
         is_dynamic: bool,
     ) -> Result<&mut Worksheet, XlsxError> {
         // Check rows and cols are in the allowed range.
-        if !self.check_dimensions(first_row, first_col)
-            || !self.check_dimensions(last_row, last_col)
+        if !self.check_dimensions_only(first_row, first_col)
+            || !self.check_dimensions_only(last_row, last_col)
         {
             return Err(XlsxError::RowColumnLimitError);
         }
@@ -15297,6 +15303,9 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        self.check_dimensions(first_row, first_col);
+        self.check_dimensions(last_row, last_col);
+
         // Get the index of the format object, if any.
         let xf_index = match format {
             Some(format) => self.format_xf_index(format),
-- 
2.43.0


From 9c7cbfcc068bd7671b3f99c4c5ad7394c0e33feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:09 +0000
Subject: [PATCH 062/100] fix: an empty list of page breaks doesn't panic

---
 src/worksheet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 3f4ab53..9dda56e 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -15024,7 +15024,7 @@ impl Worksheet {
         breaks.sort_unstable();
 
         // Remove invalid 0 row/col.
-        if breaks[0] == 0 {
+        if breaks.first() == Some(&0) {
             breaks.remove(0);
         }
 
-- 
2.43.0


From 9592aedff1e812b0dbfab9858478dc1bf8ffa1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 063/100] fix: a failed save leaves no notes or buttons behind

---
 src/worksheet.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 9dda56e..8ed409a 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16901,6 +16901,8 @@ impl Worksheet {
         self.drawing_relationships.clear();
         self.drawing.drawings.clear();
         self.header_footer_vml_info.clear();
+        self.buttons_vml_info.clear();
+        self.comments_vml_info.clear();
         self.hyperlink_relationships.clear();
         self.table_relationships.clear();
         self.vml_drawing_relationships.clear();
-- 
2.43.0


From 6d102e7f97d6b4df10eba1a127abfe780f49b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 064/100] fix: chart axis ids follow the chart ids of each save

---
 src/chart.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index be8439a..25118a6 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -823,6 +823,7 @@ pub struct Chart {
     scale_width: f64,
     scale_height: f64,
     axis_ids: (u32, u32),
+    has_generated_axis_ids: bool,
     axis2_ids: (u32, u32),
     category_has_num_format: bool,
     chart_type: ChartType,
@@ -943,6 +944,7 @@ impl Chart {
             drawing_type: DrawingType::Chart,
 
             axis_ids: (0, 0),
+            has_generated_axis_ids: false,
             axis2_ids: (0, 0),
             series: vec![],
             category_has_num_format: false,
@@ -2815,10 +2817,11 @@ impl Chart {
 
     // Set chart unique axis ids.
     pub(crate) fn add_axis_ids(&mut self, chart_id: u32) {
-        if self.axis_ids.0 != 0 {
+        if self.axis_ids.0 != 0 && !self.has_generated_axis_ids {
             return;
         }
 
+        self.has_generated_axis_ids = true;
         let axis_id = (5000 + chart_id) * 10000 + 1;
         self.axis_ids = (axis_id, axis_id + 1);
 
-- 
2.43.0


From c8446c417019edc09a062001fe1657666e3928ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:06 +0000
Subject: [PATCH 065/100] fix: a series pushed to a chart keeps its marker and
 line

---
 src/chart.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 25118a6..11584fd 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -1257,7 +1257,7 @@ impl Chart {
         let mut series = series.clone();
 
         // The default Scatter chart has a hidden line with a standard width.
-        if self.chart_type == ChartType::Scatter {
+        if self.chart_type == ChartType::Scatter && !series.format.has_formatting() {
             series.set_format(
                 ChartFormat::new().set_line(ChartLine::new().set_width(2.25).set_hidden(true)),
             );
@@ -1270,7 +1270,9 @@ impl Chart {
             || self.chart_group_type == ChartType::Line
             || self.chart_type == ChartType::Radar
         {
-            series.marker = Some(ChartMarker::new().set_none().clone());
+            series
+                .marker
+                .get_or_insert_with(|| ChartMarker::new().set_none().clone());
         }
 
         self.series.push(series);
-- 
2.43.0


From 831450d885ef8b5befe1b4084a21e8cf58d1342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:44 +0000
Subject: [PATCH 066/100] fix: the line of a formatted scatter series stays
 hidden in a markers only chart

---
 src/chart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 11584fd..76f5eea 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3897,7 +3897,7 @@ impl Chart {
             // has already been specified by the user.
             if self.chart_type == ChartType::Scatter && series.format.line.is_none() {
                 let mut line = ChartLine::new();
-                line.set_width(2.25);
+                line.set_width(2.25).set_hidden(true);
                 series.format.line = Some(line);
             }
 
-- 
2.43.0


From dd4d6b11984aa3c9875bbb3dc3ccbb63743d3c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 067/100] fix: scatter series write the marker after the shape
 properties

---
 src/chart.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 76f5eea..8ecef43 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3886,13 +3886,6 @@ impl Chart {
 
             self.write_series_title(&series.title);
 
-            if let Some(marker) = &series.marker {
-                if !marker.automatic {
-                    // Write the c:marker element.
-                    self.write_marker(marker);
-                }
-            }
-
             // Add default scatter line formatting to the series data unless it
             // has already been specified by the user.
             if self.chart_type == ChartType::Scatter && series.format.line.is_none() {
@@ -3904,6 +3897,13 @@ impl Chart {
             // Write the c:spPr formatting element.
             self.write_sp_pr(&series.format);
 
+            if let Some(marker) = &series.marker {
+                if !marker.automatic {
+                    // Write the c:marker element.
+                    self.write_marker(marker);
+                }
+            }
+
             // Write the point formatting for the series.
             if !series.points.is_empty() {
                 self.write_d_pt(&series.points, max_points);
-- 
2.43.0


From 2bea6f77428a34ff2b703608c3d1c0ca2bf08b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 068/100] fix: trendline orders and periods up to the
 documented limits are accepted

---
 src/chart.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 8ecef43..fe3043e 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2725,7 +2725,7 @@ impl Chart {
 
             // Validate Polynomial trendline range.
             if let ChartTrendlineType::Polynomial(order) = series.trendline.trend_type {
-                if !(2..6).contains(&order) {
+                if !(2..=6).contains(&order) {
                     return Err(XlsxError::ChartError(
                         "Chart series Polynomial trendline order must be in the Excel range 2-6"
                             .to_string(),
@@ -2735,7 +2735,7 @@ impl Chart {
 
             // Validate Moving Average trendline range.
             if let ChartTrendlineType::MovingAverage(period) = series.trendline.trend_type {
-                if !(2..4).contains(&period) {
+                if !(2..=4).contains(&period) {
                     return Err(XlsxError::ChartError(
                         "Chart series Moving Average trendline period must be in the Excel range 2-4"
                             .to_string(),
-- 
2.43.0


From b80ae3002a55b8ddba15ee8a85d0142ff788fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 069/100] fix: the gap and overlap of one group of chart series
 don't change another

---
 src/chart.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index fe3043e..9de8c3c 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3179,6 +3179,9 @@ impl Chart {
         // Write the c:grouping element.
         self.write_grouping();
 
+        // The series gap and overlap only apply to the current group.
+        let (gap, overlap) = (self.gap, self.overlap);
+
         // Write the c:ser elements.
         self.write_series(&series);
 
@@ -3190,6 +3193,8 @@ impl Chart {
         // Write the c:overlap element.
         self.write_overlap();
 
+        (self.gap, self.overlap) = (gap, overlap);
+
         // Write the c:axId elements.
         self.write_ax_ids(primary_axis);
 
@@ -3212,6 +3217,9 @@ impl Chart {
         // Write the c:grouping element.
         self.write_grouping();
 
+        // The series gap and overlap only apply to the current group.
+        let (gap, overlap) = (self.gap, self.overlap);
+
         // Write the c:ser elements.
         self.write_series(&series);
 
@@ -3223,6 +3231,8 @@ impl Chart {
         // Write the c:overlap element.
         self.write_overlap();
 
+        (self.gap, self.overlap) = (gap, overlap);
+
         // Write the c:axId elements.
         self.write_ax_ids(primary_axis);
 
-- 
2.43.0


From a97e8515b41e9c67f2a43fb8fa0dc521f6c3b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:51 +0000
Subject: [PATCH 070/100] fix: series are deleted from the legend by their
 written position

---
 src/chart.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 9de8c3c..d503dc9 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2848,8 +2848,16 @@ impl Chart {
         let mut deleted_entries = vec![];
         let mut index = 0;
 
+        // The series in the order that they are written to the file.
+        let mut all_series: Vec<&ChartSeries> = vec![];
+        let combined_chart = self.combined_chart.as_deref();
+        for chart in std::iter::once(self).chain(combined_chart) {
+            all_series.extend(chart.series.iter().filter(|s| !s.secondary_axis));
+            all_series.extend(chart.series.iter().filter(|s| s.secondary_axis));
+        }
+
         // Check for deleted series in legend.
-        for series in &self.series {
+        for series in &all_series {
             if series.delete_from_legend {
                 deleted_entries.push(index);
             }
@@ -2859,7 +2867,7 @@ impl Chart {
 
         // Check for deleted trendlines in legend. These are indexed after the
         // series they belong to.
-        for series in &self.series {
+        for series in &all_series {
             if series.trendline.trend_type != ChartTrendlineType::None {
                 if series.trendline.delete_from_legend {
                     deleted_entries.push(index);
-- 
2.43.0


From 7552ec7064480158381e436307afefd0f0faa61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:36 +0000
Subject: [PATCH 071/100] fix: the font of a formatted title taken from a cell
 isn't dropped

---
 src/chart.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index d503dc9..511e748 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -6260,10 +6260,10 @@ impl Chart {
             self.write_overlay();
         }
 
-        if title.format.has_formatting() {
-            // Write the c:spPr formatting element.
-            self.write_sp_pr(&title.format.clone());
-        } else {
+        // Write the c:spPr formatting element.
+        self.write_sp_pr(&title.format.clone());
+
+        if !title.format.has_formatting() || title.font != ChartFont::default() {
             // Write the c:txPr element.
             self.write_tx_pr(&title.font, title.is_horizontal);
         }
-- 
2.43.0


From e592334043f3ebfbc4848d7973d22cc84e9f9443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 072/100] fix: a chart title can be changed from a text to a
 cell

---
 src/chart.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chart.rs b/src/chart.rs
index 511e748..7333f63 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -8888,6 +8888,7 @@ impl ChartTitle {
         T: IntoChartRange,
     {
         self.range = name.new_chart_range();
+        self.name.clear();
 
         // If the name didn't convert to a populated range then it is probably
         // just a simple string title.
-- 
2.43.0


From 76c4dbe8e4b5ab3a466903d1210c75e6ec627ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 073/100] fix: refused column ranges are not applied in part

---
 src/worksheet.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 8ed409a..7647b48 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -8200,6 +8200,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         let width = width.into();
         for col_num in first_col..=last_col {
             self.set_column_width(col_num, width)?;
@@ -8238,6 +8242,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         for col_num in first_col..=last_col {
             self.set_column_width_pixels(col_num, width)?;
         }
@@ -8321,6 +8329,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         for col_num in first_col..=last_col {
             self.set_column_format(col_num, format)?;
         }
@@ -8356,6 +8368,10 @@ impl Worksheet {
             return Err(XlsxError::RowColumnOrderError);
         }
 
+        if last_col >= COL_MAX {
+            return Err(XlsxError::RowColumnLimitError);
+        }
+
         for col_num in first_col..=last_col {
             self.set_column_hidden(col_num)?;
         }
-- 
2.43.0


From 5a4a5c11095cb42f5339e4414df9b515f396dfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:27 +0000
Subject: [PATCH 074/100] fix: a failed save doesn't change the shapes of the
 next one

---
 src/drawing.rs   | 1 +
 src/worksheet.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/drawing.rs b/src/drawing.rs
index 0584906..2a1326a 100644
--- a/src/drawing.rs
+++ b/src/drawing.rs
@@ -54,6 +54,7 @@ impl Drawing {
         self.write_ws_dr();
 
         let mut index = 1;
+        self.shape_id = 0;
         for drawing in &self.drawings.clone() {
             if drawing.drawing_type == DrawingType::ChartSheet {
                 // Write the <xdr:absoluteAnchor> element.
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7647b48..6c00b57 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16916,6 +16916,7 @@ impl Worksheet {
         self.drawing_rel_ids.clear();
         self.drawing_relationships.clear();
         self.drawing.drawings.clear();
+        self.drawing.shapes.clear();
         self.header_footer_vml_info.clear();
         self.buttons_vml_info.clear();
         self.comments_vml_info.clear();
-- 
2.43.0


From b7d9790b02fe5bbc3e525028efbe91417fc236bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 075/100] fix: chart data caches keep their place after missing
 rows

---
 src/worksheet.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 6c00b57..b9f33b3 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17054,7 +17054,11 @@ impl Worksheet {
                         }
                     }
                 }
-                None => data.push(String::new()),
+                None => {
+                    for _ in first_col..=last_col {
+                        data.push(String::new());
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 26d843ad6ec972e3ac66dc29b149c1c6b85b4bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:20 +0000
Subject: [PATCH 076/100] fix: text such as NaN isn't written as a number in a
 chart cache

---
 src/chart.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 7333f63..8decf18 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4146,10 +4146,9 @@ impl Chart {
             if !value.is_empty() {
                 // Non numeric values in value/number caches are treated as zero
                 // by Excel.
-                if value.parse::<f64>().is_err() {
-                    self.write_pt(index, "0");
-                } else {
-                    self.write_pt(index, value);
+                match value.parse::<f64>() {
+                    Ok(number) if number.is_finite() => self.write_pt(index, value),
+                    _ => self.write_pt(index, "0"),
                 }
             }
         }
-- 
2.43.0


From bad0195787382206d38880892ae84d9be99be4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 077/100] fix: titles of secondary axes taken from cells have
 cached data

---
 src/workbook.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/workbook.rs b/src/workbook.rs
index 6462982..23391c7 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2456,6 +2456,8 @@ impl Workbook {
         Self::insert_to_chart_cache(&chart.title.range, chart_caches);
         Self::insert_to_chart_cache(&chart.x_axis.title.range, chart_caches);
         Self::insert_to_chart_cache(&chart.y_axis.title.range, chart_caches);
+        Self::insert_to_chart_cache(&chart.x2_axis.title.range, chart_caches);
+        Self::insert_to_chart_cache(&chart.y2_axis.title.range, chart_caches);
 
         for series in &chart.series {
             Self::insert_to_chart_cache(&series.title.range, chart_caches);
@@ -2486,6 +2488,8 @@ impl Workbook {
         Self::update_range_cache(&mut chart.title.range, chart_caches);
         Self::update_range_cache(&mut chart.x_axis.title.range, chart_caches);
         Self::update_range_cache(&mut chart.y_axis.title.range, chart_caches);
+        Self::update_range_cache(&mut chart.x2_axis.title.range, chart_caches);
+        Self::update_range_cache(&mut chart.y2_axis.title.range, chart_caches);
 
         for series in &mut chart.series {
             Self::update_range_cache(&mut series.title.range, chart_caches);
-- 
2.43.0


From 092c8afff3f1e966aaf6d03de2a05dad5a1ae0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 078/100] fix: the category axis of a bar chart can be a date
 axis

---
 src/chart.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 8decf18..7bd343c 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -3561,6 +3561,8 @@ impl Chart {
             std::mem::swap(&mut x_axis, &mut y_axis);
         }
 
+        let is_date_axis = x_axis.axis_type == ChartAxisType::Date;
+
         match self.chart_group_type {
             ChartType::Pie | ChartType::Doughnut => {}
 
@@ -3572,7 +3574,7 @@ impl Chart {
                 self.write_val_ax(&x_axis, &y_axis, self.axis_ids);
             }
             _ => {
-                if self.x_axis.axis_type == ChartAxisType::Date {
+                if is_date_axis {
                     // Write the c:dateAx element.
                     self.write_date_ax(&x_axis, &y_axis, self.axis_ids);
                 } else {
@@ -3620,7 +3622,7 @@ impl Chart {
                     // Write the c:valAx element.
                     self.write_val_ax(&x_axis, &y_axis, self.axis2_ids);
 
-                    if self.x_axis.axis_type == ChartAxisType::Date {
+                    if is_date_axis {
                         // Write the c:dateAx element.
                         self.write_date_ax(&x_axis, &y_axis, self.axis2_ids);
                     } else {
-- 
2.43.0


From 0aeb570d41545ba792b1ecdccea7adbb339f6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 079/100] fix: fields after a nested struct are serialized

---
 src/serializer.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/serializer.rs b/src/serializer.rs
index db42d67..ff4a964 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -1978,7 +1978,7 @@ pub(crate) struct TableData(
 // -----------------------------------------------------------------------
 pub(crate) struct SerializerState {
     pub(crate) structs: HashMap<String, SerializationHeaderConfig>,
-    pub(crate) current_struct: String,
+    pub(crate) current_struct: &'static str,
     pub(crate) current_field: String,
 }
 
@@ -1987,7 +1987,7 @@ impl SerializerState {
     pub(crate) fn new() -> SerializerState {
         SerializerState {
             structs: HashMap::new(),
-            current_struct: String::new(),
+            current_struct: "",
             current_field: String::new(),
         }
     }
@@ -1995,7 +1995,7 @@ impl SerializerState {
     // Check if the current struct/field have been selected to be serialized by
     // the user. If it has then return the row value for the next `write()` call.
     pub(crate) fn current_state(&mut self) -> Result<(RowNum, ColNum, Arc<Option<Format>>), ()> {
-        let Some(header_config) = self.structs.get_mut(&self.current_struct) else {
+        let Some(header_config) = self.structs.get_mut(self.current_struct) else {
             return Err(());
         };
 
@@ -2012,13 +2012,11 @@ impl SerializerState {
     }
 
     // Store the name and max row of the current struct being serialized.
-    pub(crate) fn set_current_struct(&mut self, struct_name: &str) {
-        if struct_name != self.current_struct {
-            self.current_struct = struct_name.to_string();
-        }
+    pub(crate) fn set_current_struct(&mut self, struct_name: &'static str) {
+        self.current_struct = struct_name;
 
         // Increment the max row every time we serialize a new struct instance.
-        let Some(header_config) = self.structs.get_mut(&self.current_struct) else {
+        let Some(header_config) = self.structs.get_mut(self.current_struct) else {
             return;
         };
         header_config.max_row += 1;
@@ -3765,7 +3763,12 @@ impl ser::SerializeStruct for &mut Worksheet {
         // Store field name to allow us to map to the correct header/column.
         self.serializer_state.current_field = key.to_string();
 
-        value.serialize(&mut **self)
+        // Serializing a nested struct changes the current struct.
+        let current_struct = self.serializer_state.current_struct;
+        let result = value.serialize(&mut **self);
+        self.serializer_state.current_struct = current_struct;
+
+        result
     }
 
     fn end(self) -> Result<(), XlsxError> {
-- 
2.43.0


From 209ce9aefe47c78dbd9cb4298791d77ae43f9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:26 +0000
Subject: [PATCH 080/100] fix: values outside of structs aren't serialized over
 a previous field

---
 src/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serializer.rs b/src/serializer.rs
index ff4a964..02d39bc 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -3772,6 +3772,9 @@ impl ser::SerializeStruct for &mut Worksheet {
     }
 
     fn end(self) -> Result<(), XlsxError> {
+        // Any following value isn't part of the struct.
+        self.serializer_state.current_struct = "";
+
         Ok(())
     }
 }
-- 
2.43.0


From 25fe1c53db7901810e9cf79e1f24aafc90ae47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 081/100] fix: dimensions of serialized structs without rows
 don't underflow

---
 src/serializer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/serializer.rs b/src/serializer.rs
index 02d39bc..9fb1124 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -2037,7 +2037,7 @@ impl SerializerState {
         Ok((
             header_config.min_row,
             header_config.min_col,
-            header_config.max_row - 1,
+            header_config.last_row(),
             header_config.max_col,
         ))
     }
@@ -2064,7 +2064,7 @@ impl SerializerState {
         Ok((
             header_config.min_row,
             field.col,
-            header_config.max_row - 1,
+            header_config.last_row(),
             field.col,
         ))
     }
@@ -2097,6 +2097,11 @@ pub(crate) struct SerializationHeaderConfig {
 }
 
 impl SerializationHeaderConfig {
+    // The last header/data row, or the start row if there aren't any yet.
+    fn last_row(&self) -> RowNum {
+        std::cmp::max(self.max_row.saturating_sub(1), self.min_row)
+    }
+
     // Get table object and dimensions for the a serialization area.
     pub(crate) fn get_table(&mut self) -> Option<TableData> {
         let table = self.table.take();
@@ -2105,7 +2110,7 @@ impl SerializationHeaderConfig {
             Some(table) => Some(TableData(
                 self.min_row,
                 self.min_col,
-                self.max_row - 1,
+                self.last_row(),
                 self.max_col,
                 table,
             )),
-- 
2.43.0


From 97635c7c19234b8954db5f1d29d4a3424f076c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 082/100] fix: serialized tables are added in a fixed order

---
 src/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serializer.rs b/src/serializer.rs
index 9fb1124..17771da 100644
--- a/src/serializer.rs
+++ b/src/serializer.rs
@@ -2079,6 +2079,9 @@ impl SerializerState {
             }
         }
 
+        // The structs are stored in a HashMap, without an order.
+        tables.sort_by_key(|table| (table.0, table.1));
+
         tables
     }
 }
-- 
2.43.0


From 99dd7723eb9e9d3d3a0458b343570e17cf85dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:31 +0000
Subject: [PATCH 083/100] fix: the overlay of a chart legend comes before its
 format

---
 src/chart.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 7bd343c..ebf71a8 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4894,14 +4894,14 @@ impl Chart {
         // Write the c:layout element.
         self.write_layout(&self.legend.layout.clone());
 
-        // Write the c:spPr formatting element.
-        self.write_sp_pr(&self.legend.format.clone());
-
         // Write the c:overlay element.
         if self.legend.has_overlay {
             self.write_overlay();
         }
 
+        // Write the c:spPr formatting element.
+        self.write_sp_pr(&self.legend.format.clone());
+
         // Pie/Doughnut charts set the "rtl" flag to "0" in the legend font even
         // though "0" is implied. To match Excel output we set it if it hasn't
         // been set by the user.
-- 
2.43.0


From 404ff167d54fa8ae991eced1d39a3d14ce2931ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:50 +0000
Subject: [PATCH 084/100] fix: the empty shape properties of a custom data
 label keep their place

---
 src/chart.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index ebf71a8..8e51bd1 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5067,15 +5067,6 @@ impl Chart {
                 // Write the c:delete element.
                 self.write_delete();
             } else {
-                // Add empty "c:spPr", as required, for Excel compatibility.
-                if !data_label.format.has_formatting() {
-                    if let Some(font) = &data_label.font {
-                        if font.color.is_auto_or_default() {
-                            xml_empty_tag_only(&mut self.writer, "c:spPr");
-                        }
-                    }
-                }
-
                 // If a custom point has a font then it may need to be applied
                 // to the title and/or the label.
                 let mut data_label = data_label.clone();
@@ -5130,6 +5121,14 @@ impl Chart {
         self.write_sp_pr(&data_label.format);
 
         if let Some(font) = &data_label.font {
+            // Add empty "c:spPr", as required, for Excel compatibility.
+            if data_label.is_custom
+                && !data_label.format.has_formatting()
+                && font.color.is_auto_or_default()
+            {
+                xml_empty_tag_only(&mut self.writer, "c:spPr");
+            }
+
             // Write the c:txPr element.
             self.write_tx_pr(&font.clone(), false);
         }
-- 
2.43.0


From f9ba0f7ffb1a8784f7bcb66e0013c9076b414947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:41 +0000
Subject: [PATCH 085/100] fix: constant memory rows are stored once, in order,
 with the last one

---
 src/worksheet.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index b9f33b3..81920d8 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -18733,31 +18733,29 @@ impl Worksheet {
     // modified rows.
     #[cfg(feature = "constant_memory")]
     pub(crate) fn flush_last_row(&mut self) {
-        // First find any write ahead cached rows.
+        // First find any write ahead cached rows after the current row.
         let mut remaining_rows: Vec<_> = self.write_ahead.keys().copied().collect();
 
-        // Add any changed row elements.
-        let max_changed_row = self.changed_rows.keys().max().unwrap_or(&0);
-        if *max_changed_row > self.current_row {
-            for row_num in self.current_row..=*max_changed_row {
-                if self.changed_rows.contains_key(&row_num) {
-                    remaining_rows.push(row_num);
-                }
+        // Add any changed row elements after the current row.
+        for row_num in self.changed_rows.keys() {
+            if *row_num > self.current_row {
+                remaining_rows.push(*row_num);
             }
         }
 
-        // Add the current row.
-        remaining_rows.push(self.current_row);
-
         // Remove any duplicate rows.
         remaining_rows.sort_unstable();
         remaining_rows.dedup();
 
-        // If there is data to write (and not just write-ahead or rows) we move
-        // the final row ahead by one. This will start any subsequent write() on
-        // the next row, after a resave.
-        if self.data_table.contains_key(&self.current_row) {
-            remaining_rows.push(1 + *remaining_rows.last().unwrap());
+        // If there is anything to write we move the final row ahead by one.
+        // This writes the last of the remaining rows and will start any
+        // subsequent write() on the next row, after a resave.
+        if !remaining_rows.is_empty()
+            || self.data_table.contains_key(&self.current_row)
+            || self.changed_rows.contains_key(&self.current_row)
+        {
+            let last_row = remaining_rows.last().unwrap_or(&self.current_row);
+            remaining_rows.push(last_row + 1);
         }
 
         // Flush all the remaining rows.
-- 
2.43.0


From 4d1b8bee0864a6e81854993f9ba97414338fa7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 086/100] fix: rows written ahead are inside the sheet data

---
 src/worksheet.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 81920d8..7a9a4e0 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17503,7 +17503,14 @@ impl Worksheet {
         self.write_cols();
 
         // Write the <sheetData> element.
+        #[cfg(feature = "constant_memory")]
+        let has_write_ahead = !self.write_ahead.is_empty();
+
+        #[cfg(not(feature = "constant_memory"))]
+        let has_write_ahead = false;
+
         if !self.has_sheet_data
+            && !has_write_ahead
             && self.data_table.is_empty()
             && self.notes.is_empty()
             && self.changed_rows.is_empty()
-- 
2.43.0


From e704631883c4afda22b46edb675f70e0555b0d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:55 +0000
Subject: [PATCH 087/100] fix: errors when storing constant memory rows are
 reported

---
 src/packager.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/packager.rs b/src/packager.rs
index 6d74e6f..cb7f306 100644
--- a/src/packager.rs
+++ b/src/packager.rs
@@ -44,7 +44,7 @@ use std::collections::{HashMap, HashSet};
 use std::io::{Seek, Write};
 
 #[cfg(feature = "constant_memory")]
-use std::io::{BufRead, BufReader};
+use std::io::{self, BufReader, SeekFrom};
 
 use std::sync::{Arc, Mutex};
 #[cfg(not(target_arch = "wasm32"))]
@@ -457,17 +457,14 @@ impl<W: Write + Seek + Send> Packager<W> {
                 // We also need to flush the last remaining row.
                 worksheet.flush_last_row();
 
-                worksheet.file_writer.rewind().unwrap();
+                worksheet.file_writer.rewind()?;
                 let mut reader = BufReader::new(worksheet.file_writer.get_ref());
-                loop {
-                    let buffer = reader.fill_buf().unwrap();
-                    let length = buffer.len();
-                    if length == 0 {
-                        break;
-                    }
-                    self.zip.write_all(buffer).unwrap();
-                    reader.consume(length);
-                }
+                let result = io::copy(&mut reader, &mut self.zip);
+
+                // Any subsequent rows go at the end of the file even if it
+                // wasn't copied completely.
+                worksheet.file_writer.seek(SeekFrom::End(0))?;
+                result?;
             }
 
             // Section 3. In memory metadata at end of the file.
-- 
2.43.0


From b2b2b5d937ba679a67ae2c670aa618b13a4f1f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:51 +0000
Subject: [PATCH 088/100] fix: sheets filled from several threads could share a
 format index

---
 src/worksheet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 7a9a4e0..2e7664e 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16115,12 +16115,12 @@ impl Worksheet {
         // add the format and create a new index.
         drop(xf_indices);
 
-        // Add the new format and give it an index.
+        // Add the new format and give it an index, unless another thread has
+        // added it since the read() lock was dropped.
         let mut xf_indices = self.workbook_xf_indices.write().expect("RwLock poisoned");
         let xf_index = xf_indices.len() as u32;
-        xf_indices.insert(format.clone(), xf_index);
 
-        xf_index
+        *xf_indices.entry(format.clone()).or_insert(xf_index)
     }
 
     // Look up the Format index from the worksheet/local format index table.
-- 
2.43.0


From 37cd0477c30be532d72f3b36456065c52bc05f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:08 +0000
Subject: [PATCH 089/100] fix: a missing VBA signature file left the VBA
 project in place

---
 src/workbook.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 23391c7..2d208a5 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -1903,16 +1903,17 @@ impl Workbook {
         project: P,
         signature: P,
     ) -> Result<&mut Workbook, XlsxError> {
-        // Add the project binary file.
-        self.add_vba_project(project)?;
-
-        // Add the signature binary file.
+        // Read the signature binary file.
         let path_buf = signature.as_ref().to_path_buf();
         let file = File::open(path_buf)?;
         let mut reader = BufReader::new(file);
         let mut data = vec![];
         reader.read_to_end(&mut data)?;
 
+        // Add the project binary file.
+        self.add_vba_project(project)?;
+
+        // Add the signature binary file.
         self.vba_signature = data;
 
         Ok(self)
-- 
2.43.0


From 2c358d260f3bbbcbf47d985fb9b0eb62b23df9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:11 +0000
Subject: [PATCH 090/100] fix: automatic VBA sheet names were kept from an
 earlier save

---
 src/workbook.rs  | 3 ++-
 src/worksheet.rs | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/workbook.rs b/src/workbook.rs
index 2d208a5..6020094 100644
--- a/src/workbook.rs
+++ b/src/workbook.rs
@@ -2166,8 +2166,9 @@ impl Workbook {
             // SheetN and not on the actual sheet name.
             if self.is_xlsm_file {
                 let codename = format!("Sheet{}", i + 1);
-                if worksheet.vba_codename.is_none() {
+                if worksheet.vba_codename.is_none() || worksheet.has_default_vba_codename {
                     worksheet.vba_codename = Some(codename);
+                    worksheet.has_default_vba_codename = true;
                 }
             }
 
diff --git a/src/worksheet.rs b/src/worksheet.rs
index 2e7664e..0495ce8 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -1522,6 +1522,7 @@ pub struct Worksheet {
     pub(crate) embedded_images: Vec<Image>,
     pub(crate) global_embedded_image_indices: Vec<u32>,
     pub(crate) vba_codename: Option<String>,
+    pub(crate) has_default_vba_codename: bool,
     pub(crate) note_authors: BTreeMap<String, usize>,
     pub(crate) vml_data_id: String,
     pub(crate) vml_shape_id: u32,
@@ -1839,6 +1840,7 @@ impl Worksheet {
             has_sparklines: false,
             sparklines: vec![],
             vba_codename: None,
+            has_default_vba_codename: false,
             note_authors: BTreeMap::from([("Author".to_string(), 0)]),
             show_all_notes: false,
             vml_data_id: String::new(),
@@ -14445,6 +14447,7 @@ impl Worksheet {
         let name = name.into();
         utility::validate_vba_name(&name)?;
         self.vba_codename = Some(name);
+        self.has_default_vba_codename = false;
 
         Ok(self)
     }
-- 
2.43.0


From 0d74bd52818de782600ba05aac66cd1eb03c3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:07 +0000
Subject: [PATCH 091/100] fix: derived field names follow the rules of serde
 for rename_all

---
 macros/src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 0220fea..7bda9aa 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -757,7 +757,7 @@ pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
                     // Get the field name to map to a custom header.
                     let mut field_name = field_name.to_string();
 
-                    if field_name != "original" {
+                    if field_case != "original" {
                         field_name = rename_field(&field_name, &field_case);
                     }
 
@@ -1170,7 +1170,6 @@ enum FieldAttributeTypes {
 // -----------------------------------------------------------------------
 fn rename_field(field_name: &str, rename_type: &str) -> String {
     match rename_type {
-        "lowercase" => field_name.to_ascii_lowercase(),
         "camelCase" => camel_case(field_name),
         "kebab-case" => field_name.replace('_', "-"),
         "PascalCase" => pascal_case(field_name),
@@ -1192,13 +1191,19 @@ fn camel_case(field_name: &str) -> String {
 }
 
 fn uppercase_first(segment: &str) -> String {
-    let mut segment = segment.to_string();
-    segment.remove(0).to_uppercase().to_string() + &segment
+    let mut chars = segment.chars();
+    match chars.next() {
+        Some(first) => first.to_ascii_uppercase().to_string() + chars.as_str(),
+        None => String::new(),
+    }
 }
 
 fn lowercase_first(segment: &str) -> String {
-    let mut segment = segment.to_string();
-    segment.remove(0).to_lowercase().to_string() + &segment
+    let mut chars = segment.chars();
+    match chars.next() {
+        Some(first) => first.to_ascii_lowercase().to_string() + chars.as_str(),
+        None => String::new(),
+    }
 }
 
 // -----------------------------------------------------------------------
-- 
2.43.0


From 58d82f0bbdae65e098301f4ddd5ac9fa07ed7186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:29 +0000
Subject: [PATCH 092/100] fix: derived names of raw identifiers don't have the
 r# prefix

---
 macros/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 7bda9aa..87fb342 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -82,6 +82,8 @@
 //!
 use proc_macro::TokenStream;
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
+use syn::meta::ParseNestedMeta;
 use syn::{
     parse_macro_input, Attribute, Data, DeriveInput, Expr, Fields, LitFloat, LitInt, LitStr, Token,
 };
@@ -676,7 +678,7 @@ use syn::{
 pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
     let ast = parse_macro_input!(input as DeriveInput);
     let (impl_generics, type_generics, where_clause) = ast.generics.split_for_impl();
-    let mut struct_name = ast.ident.to_string();
+    let mut struct_name = ast.ident.unraw().to_string();
     let struct_type = ast.ident;
 
     let mut field_case = "original".to_string();
@@ -755,7 +757,7 @@ pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
             'field: for field in &fields.named {
                 if let Some(field_name) = field.ident.as_ref() {
                     // Get the field name to map to a custom header.
-                    let mut field_name = field_name.to_string();
+                    let mut field_name = field_name.unraw().to_string();
 
                     if field_case != "original" {
                         field_name = rename_field(&field_name, &field_case);
-- 
2.43.0


From 88c5b610adca5313c35d96ed115a41bf2a7ef623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:42 +0000
Subject: [PATCH 093/100] fix: derived names take account of all serde rename
 attributes

---
 macros/src/lib.rs | 77 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 20 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 87fb342..f87251a 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -85,7 +85,8 @@ use quote::{quote, ToTokens};
 use syn::ext::IdentExt;
 use syn::meta::ParseNestedMeta;
 use syn::{
-    parse_macro_input, Attribute, Data, DeriveInput, Expr, Fields, LitFloat, LitInt, LitStr, Token,
+    parse_macro_input, token, Attribute, Data, DeriveInput, Expr, Fields, LitFloat, LitInt, LitStr,
+    Token,
 };
 
 /// The `XlsxSerialize` derived trait is used in conjunction with
@@ -989,29 +990,29 @@ fn parse_header_attribute(attribute: &Attribute) -> Vec<HeaderAttributeTypes> {
                     let value = meta.value()?;
                     let token = value.parse()?;
                     attributes.push(HeaderAttributeTypes::SerdeRenameAll(token));
-                } else {
-                    let _ = meta.parse_nested_meta(|meta| {
-                        if meta.path.is_ident("serialize") {
-                            let value = meta.value()?;
-                            let token = value.parse()?;
-                            attributes.push(HeaderAttributeTypes::SerdeRenameAll(token));
-                        }
-                        Ok(())
-                    });
+                } else if let Some(token) = parse_nested_serialize(&meta)? {
+                    attributes.push(HeaderAttributeTypes::SerdeRenameAll(token));
                 }
 
                 Ok(())
             }
-            // Handle the #[serde(rename = "")] container attribute.
+            // Handle the `rename` container attributes:
+            //     #[serde(rename = "...")]
+            //     #[serde(rename(serialize = "..."))]
             else if meta.path.is_ident("rename") {
-                let value = meta.value()?;
-                let token = value.parse()?;
-                attributes.push(HeaderAttributeTypes::SerdeRename(token));
+                if meta.input.peek(Token![=]) {
+                    let value = meta.value()?;
+                    let token = value.parse()?;
+                    attributes.push(HeaderAttributeTypes::SerdeRename(token));
+                } else if let Some(token) = parse_nested_serialize(&meta)? {
+                    attributes.push(HeaderAttributeTypes::SerdeRename(token));
+                }
+
                 Ok(())
             }
             // Ignore everything else.
             else {
-                Ok(())
+                skip_attribute_value(&meta)
             }
         });
     }
@@ -1135,16 +1136,23 @@ fn parse_field_attribute(attribute: &Attribute) -> Vec<FieldAttributeTypes> {
                 attributes.push(FieldAttributeTypes::SerdeSkip);
                 Ok(())
             }
-            // Handle he #[serde(rename = "Price")] field attribute:
+            // Handle the serde `rename` field attributes:
+            //    #[serde(rename = "Price")]
+            //    #[serde(rename(serialize = "Price"))]
             else if meta.path.is_ident("rename") {
-                let value = meta.value()?;
-                let token = value.parse()?;
-                attributes.push(FieldAttributeTypes::SerdeRename(token));
+                if meta.input.peek(Token![=]) {
+                    let value = meta.value()?;
+                    let token = value.parse()?;
+                    attributes.push(FieldAttributeTypes::SerdeRename(token));
+                } else if let Some(token) = parse_nested_serialize(&meta)? {
+                    attributes.push(FieldAttributeTypes::SerdeRename(token));
+                }
+
                 Ok(())
             }
             // Ignore everything else.
             else {
-                Ok(())
+                skip_attribute_value(&meta)
             }
         });
     }
@@ -1152,6 +1160,35 @@ fn parse_field_attribute(attribute: &Attribute) -> Vec<FieldAttributeTypes> {
     attributes
 }
 
+// Parse the `serialize` value of a nested attribute such as:
+//     #[serde(rename(serialize = "...", deserialize = "..."))]
+fn parse_nested_serialize(meta: &ParseNestedMeta) -> syn::Result<Option<LitStr>> {
+    let mut token = None;
+
+    meta.parse_nested_meta(|meta| {
+        if meta.path.is_ident("serialize") {
+            token = Some(meta.value()?.parse()?);
+            Ok(())
+        } else {
+            skip_attribute_value(&meta)
+        }
+    })?;
+
+    Ok(token)
+}
+
+// Skip the value of an unhandled attribute so that any following attributes can
+// be parsed.
+fn skip_attribute_value(meta: &ParseNestedMeta) -> syn::Result<()> {
+    if meta.input.peek(Token![=]) {
+        meta.value()?.parse::<Expr>()?;
+    } else if meta.input.peek(token::Paren) {
+        meta.parse_nested_meta(|meta| skip_attribute_value(&meta))?;
+    }
+
+    Ok(())
+}
+
 // Field attribute return values.
 enum FieldAttributeTypes {
     Skip,
-- 
2.43.0


From 72cd227296d1e734c8d129a8e2017d4f4aed0623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:36 +0000
Subject: [PATCH 094/100] fix: attributes of fields skipped by serde are
 checked as well

---
 macros/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index f87251a..8cbcab5 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -755,7 +755,7 @@ pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
     // Parse and handle field attributes.
     if let Data::Struct(data) = ast.data {
         if let Fields::Named(fields) = data.fields {
-            'field: for field in &fields.named {
+            for field in &fields.named {
                 if let Some(field_name) = field.ident.as_ref() {
                     // Get the field name to map to a custom header.
                     let mut field_name = field_name.unraw().to_string();
@@ -769,6 +769,7 @@ pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
                     };
 
                     let mut custom_field_methods = quote! {};
+                    let mut is_skipped = false;
 
                     for attribute_tokens in &field.attrs {
                         for attribute in parse_field_attribute(attribute_tokens) {
@@ -853,7 +854,7 @@ pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
                                 // Handle the #[serde(skip)] field attribute attribute by ignoring
                                 // the field.
                                 FieldAttributeTypes::SerdeSkip => {
-                                    continue 'field;
+                                    is_skipped = true;
                                 }
 
                                 // Raise any errors from parsing the attributes.
@@ -864,6 +865,10 @@ pub fn excel_serialize_derive(input: TokenStream) -> TokenStream {
                         }
                     }
 
+                    if is_skipped {
+                        continue;
+                    }
+
                     let custom_field = quote! {
                         #custom_field_constructor
                         #custom_field_methods
-- 
2.43.0


From d54d5a2f6f93d46cc018f93e1eca633532bba17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:50 +0000
Subject: [PATCH 095/100] fix: leader lines are an option of all labels, not of
 one

---
 src/chart.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chart.rs b/src/chart.rs
index 8e51bd1..680bac8 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -5175,7 +5175,9 @@ impl Chart {
             self.write_separator(data_label.separator);
         }
 
-        if data_label.show_leader_lines {
+        // The leader lines are an option of the series' labels, see
+        // "c:dLbls", and aren't allowed for an individual label.
+        if data_label.show_leader_lines && !data_label.is_custom {
             match self.chart_group_type {
                 // Write the c:showLeaderLines element.
                 ChartType::Pie | ChartType::Doughnut => {
-- 
2.43.0


From 1dce7d46b8d69d77a7b5f1ffa388512905b0f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:42 +0000
Subject: [PATCH 096/100] fix: no label and tick intervals for date axes

---
 src/chart.rs | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/chart.rs b/src/chart.rs
index 680bac8..bdeae73 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -4399,16 +4399,6 @@ impl Chart {
         // Write the c:lblOffset element.
         self.write_lbl_offset();
 
-        // Write the c:tickLblSkip element.
-        if x_axis.label_interval > 1 {
-            self.write_tick_lbl_skip(x_axis.label_interval);
-        }
-
-        // Write the c:tickMarkSkip element.
-        if x_axis.tick_interval > 1 {
-            self.write_tick_mark_skip(x_axis.tick_interval);
-        }
-
         // Write the c:majorUnit element.
         if !x_axis.major_unit.is_empty() {
             self.write_major_unit(&x_axis.major_unit);
-- 
2.43.0


From f74b4064ce55e5364d2e032f969a0de62556d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:27 +0000
Subject: [PATCH 097/100] fix: don't write worksheet-only page and display
 settings to chartsheets

---
 src/worksheet.rs | 69 ++++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index 0495ce8..f0d7c70 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -17652,16 +17652,6 @@ impl Worksheet {
             self.write_sheet_protection();
         }
 
-        // Write the protectedRange element.
-        if !self.unprotected_ranges.is_empty() {
-            self.write_protected_ranges();
-        }
-
-        // Write the printOptions element.
-        if self.print_options_changed {
-            self.write_print_options();
-        }
-
         // Write the pageMargins element.
         self.write_page_margins();
 
@@ -17735,13 +17725,17 @@ impl Worksheet {
 
     // Write the <sheetPr> element.
     fn write_sheet_pr(&mut self) {
+        // Only some of the settings apply to chartsheets.
+        let fit_to_page = self.fit_to_page && !self.is_chartsheet;
+        let has_outline =
+            (self.outline_symbols_above || self.outline_symbols_left) && !self.is_chartsheet;
+
         if self.filter_conditions.is_empty()
-            && !self.fit_to_page
+            && !fit_to_page
             && (self.tab_color == Color::Default || self.tab_color == Color::Automatic)
             && self.vba_codename.is_none()
             && !self.is_chartsheet
-            && !self.outline_symbols_above
-            && !self.outline_symbols_left
+            && !has_outline
         {
             return;
         }
@@ -17754,9 +17748,8 @@ impl Worksheet {
             attributes.push(("filterMode", "1".to_string()));
         }
 
-        if self.fit_to_page
-            || self.outline_symbols_above
-            || self.outline_symbols_left
+        if fit_to_page
+            || has_outline
             || (self.tab_color != Color::Default && self.tab_color != Color::Automatic)
         {
             xml_start_tag(&mut self.writer, "sheetPr", &attributes);
@@ -17764,11 +17757,13 @@ impl Worksheet {
             // Write the tabColor element.
             self.write_tab_color();
 
-            // Write the outlinePr element.
-            self.write_outline_pr();
+            if !self.is_chartsheet {
+                // Write the outlinePr element.
+                self.write_outline_pr();
 
-            // Write the pageSetUpPr element.
-            self.write_page_set_up_pr();
+                // Write the pageSetUpPr element.
+                self.write_page_set_up_pr();
+            }
 
             xml_end_tag(&mut self.writer, "sheetPr");
         } else {
@@ -17861,6 +17856,12 @@ impl Worksheet {
 
     // Write the <sheetView> element.
     fn write_sheet_view(&mut self) {
+        // Most of the view settings don't apply to chartsheets.
+        if self.is_chartsheet {
+            self.write_chartsheet_view();
+            return;
+        }
+
         let mut attributes = vec![];
 
         if !self.screen_gridlines {
@@ -17900,9 +17901,7 @@ impl Worksheet {
                     attributes.push(("zoomScaleSheetLayoutView", self.zoom.to_string()));
                 }
                 PageView::Normal => {
-                    if !self.is_chartsheet {
-                        attributes.push(("zoomScaleNormal", self.zoom.to_string()));
-                    }
+                    attributes.push(("zoomScaleNormal", self.zoom.to_string()));
                 }
             }
         }
@@ -17919,6 +17918,23 @@ impl Worksheet {
         }
     }
 
+    // Write the <sheetView> element for a chartsheet.
+    fn write_chartsheet_view(&mut self) {
+        let mut attributes = vec![];
+
+        if self.selected || self.is_active_tab {
+            attributes.push(("tabSelected", "1".to_string()));
+        }
+
+        if self.zoom != 100 {
+            attributes.push(("zoomScale", self.zoom.to_string()));
+        }
+
+        attributes.push(("workbookViewId", "0".to_string()));
+
+        xml_empty_tag(&mut self.writer, "sheetView", &attributes);
+    }
+
     // Write the elements associated with cell selections.
     fn write_selections(&mut self) {
         if self.selected_range.0.is_empty() {
@@ -18403,11 +18419,12 @@ impl Worksheet {
             attributes.push(("paperSize", self.paper_size.to_string()));
         }
 
-        if self.print_scale != 100 {
+        // The page scaling and page order don't apply to chartsheets.
+        if self.print_scale != 100 && !self.is_chartsheet {
             attributes.push(("scale", self.print_scale.to_string()));
         }
 
-        if self.fit_to_page {
+        if self.fit_to_page && !self.is_chartsheet {
             if self.fit_width != 1 {
                 attributes.push(("fitToWidth", self.fit_width.to_string()));
             }
@@ -18416,7 +18433,7 @@ impl Worksheet {
             }
         }
 
-        if !self.default_page_order {
+        if !self.default_page_order && !self.is_chartsheet {
             attributes.push(("pageOrder", "overThenDown".to_string()));
         }
 
-- 
2.43.0


From 84c8b84435f4ebb71a6a3f363fb063e67711b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:15 +0000
Subject: [PATCH 098/100] fix: validate the series of combined charts

---
 src/chart.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chart.rs b/src/chart.rs
index bdeae73..8f842f6 100644
--- a/src/chart.rs
+++ b/src/chart.rs
@@ -2744,6 +2744,11 @@ impl Chart {
             }
         }
 
+        // Check the secondary chart of a combined chart in the same way.
+        if let Some(combined_chart) = &mut self.combined_chart {
+            combined_chart.validate()?;
+        }
+
         Ok(self)
     }
 
-- 
2.43.0


From 44197801747cade368427b308ec92b470e24a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:10 +0000
Subject: [PATCH 099/100] fix: don't keep the authors of replaced notes from a
 previous save

---
 src/worksheet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index f0d7c70..f5f1d01 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16504,6 +16504,10 @@ impl Worksheet {
         let mut button_id = 1;
         let mut note_count = 0;
 
+        // Only keep the default author from any previous save, since the notes may
+        // have changed in the meantime.
+        self.note_authors.retain(|_, id| *id == 0);
+
         // Modify Note author according to worksheet settings.
         for columns in self.notes.values_mut() {
             for note in columns.values_mut() {
-- 
2.43.0


From 0416e2d444f0ff2ab3c18c71887aceffbad0b6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:26 +0000
Subject: [PATCH 100/100] fix: don't keep the image types of replaced images
 from a previous save

---
 src/worksheet.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/worksheet.rs b/src/worksheet.rs
index f5f1d01..26f2540 100644
--- a/src/worksheet.rs
+++ b/src/worksheet.rs
@@ -16931,6 +16931,13 @@ impl Worksheet {
         self.table_relationships.clear();
         self.vml_drawing_relationships.clear();
         self.background_relationships.clear();
+
+        // Only keep the image types of the embedded images. The types of the other
+        // images are set again during the save.
+        self.image_types = [false; NUM_IMAGE_FORMATS];
+        for image in &self.embedded_images {
+            self.image_types[image.image_type.clone() as usize] = true;
+        }
     }
 
     // Check if any external relationships are required.
-- 
2.43.0

