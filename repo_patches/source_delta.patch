From c9ed4e63153b98b82faaa53724641f3261347aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 01/16] fix: focusing on a node's text no longer lands in
 another node's text

---
 src/pretty_print.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index 8a8a846..b02b1e9 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -470,6 +470,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
         use ConsolidatedNotation::*;
         span!("seek_text");
 
+        let id = chunk.id;
         let mut first_block = self.next_blocks.pop().unwrap();
         self.expand_focusing_first_block(&mut first_block, chunk)?;
         self.next_blocks.push(first_block);
@@ -483,7 +484,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
                     FocusMark => (),
                     EndOfLine => block.at_eol = true,
                     Textual(textual) => {
-                        if textual.is_from_text {
+                        if textual.is_from_text && chunk.id == id {
                             let (left_textual, right_textual) = textual.split_at(text_pos);
                             block.push_text(left_textual)?;
                             block.chunks.push(Chunk {
-- 
2.43.0


From 2a5292f1674106231f51e1ec0e147d8feb703806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 02/16] fix: JSON constants use an existing style label

---
 src/doc_examples/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index f45d2d0..84b5be7 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -14,7 +14,7 @@ use crate::notation_constructors::{
 use crate::CheckPos;
 use once_cell::sync::Lazy;
 
-const CONSTANT_STYLE: &str = "green_bold";
+const CONSTANT_STYLE: &str = "bold_green";
 const STRING_STYLE: &str = "magenta";
 const NUMBER_STYLE: &str = "blue";
 const COMMENT_STYLE: &str = "yellow";
-- 
2.43.0


From fece0990521525315a879fdadb018b064fabbc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 03/16] fix: widths beyond the largest column saturate instead
 of wrapping around

---
 src/geometry.rs          |  9 ++++++++-
 src/pane/display_pane.rs |  2 +-
 src/pretty_print.rs      | 13 +++++++------
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index b95508c..12ff8ae 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -87,8 +87,15 @@ impl Add<Size> for Pos {
 
 /// The width of a string in columns. May be an overestimate. Not to be confused with the number of
 /// bytes, Unicode code points, or Unicode grapheme clusters.
+///
+/// A string that's wider than the largest `Width` is given the largest `Width`.
 pub fn str_width(s: &str) -> Width {
-    unicode_width::UnicodeWidthStr::width(s) as Width
+    unicode_width::UnicodeWidthStr::width(s).min(Width::MAX as usize) as Width
+}
+
+/// Add up widths, stopping at the largest `Width`.
+pub(crate) fn sum_widths(widths: impl Iterator<Item = Width>) -> Width {
+    widths.fold(0, Width::saturating_add)
 }
 
 /// Returns true if the char is 2 columns wide and false if its 1 column wide.
diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index e012d22..e8c2562 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -332,7 +332,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             window
                 .set_focus(Pos {
                     row: focus_point.row + rect.min_row,
-                    col: focus_point.col + rect.min_col,
+                    col: focus_point.col.saturating_add(rect.min_col),
                 })
                 .map_err(PaneError::PrettyWindowError)?;
         }
diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index b02b1e9..59eca62 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -2,6 +2,7 @@ use crate::{
     consolidated_notation::{
         ConsolidatedNotation, DelayedConsolidatedNotation, IndentNode, Textual,
     },
+    geometry::sum_widths,
     infra::span,
     PrettyDoc, PrintingError, Segment, Width,
 };
@@ -141,22 +142,22 @@ pub struct FocusedLine<'d, D: PrettyDoc<'d>> {
 
 impl<'d, D: PrettyDoc<'d>> Line<'d, D> {
     pub fn width(&self) -> Width {
-        self.segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.segments.iter().map(|seg| seg.width))
     }
 }
 
 impl<'d, D: PrettyDoc<'d>> FocusedLine<'d, D> {
     pub fn left_width(&self) -> Width {
-        self.left_segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.left_segments.iter().map(|seg| seg.width))
     }
 
     pub fn right_width(&self) -> Width {
-        self.right_segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.right_segments.iter().map(|seg| seg.width))
     }
 
     pub fn width(&self) -> Width {
         let segs = self.left_segments.iter().chain(self.right_segments.iter());
-        segs.map(|seg| seg.width).sum()
+        sum_widths(segs.map(|seg| seg.width))
     }
 
     pub fn to_left_string(&self) -> String {
@@ -242,7 +243,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
         indent_segments.reverse();
 
         Block {
-            prefix_len: indent_segments.iter().map(|seg| seg.width).sum(),
+            prefix_len: sum_widths(indent_segments.iter().map(|seg| seg.width)),
             segments: indent_segments,
             at_eol: false,
             chunks,
@@ -258,7 +259,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
             width: textual.width,
             style: textual.style,
         });
-        self.prefix_len += textual.width;
+        self.prefix_len = self.prefix_len.saturating_add(textual.width);
         Ok(())
     }
 
-- 
2.43.0


From 86e35efccbaacad296c26523a12aa5ca4c285ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 04/16] fix: dynamic-height panes show their lines whatever the
 focus height

---
 src/pane/display_pane.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index e8c2562..1ccc556 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -160,11 +160,12 @@ where
                 }
 
                 let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
-                let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
+                let mut printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
                     PrintedDoc::new(doc, &options, available_size, &doc_style)?
                 } else {
                     PrintedDoc::new_empty(&doc_style)
                 };
+                printed_doc.remove_rows_above();
 
                 let height = printed_doc.height();
                 available_size.height -= height;
@@ -304,6 +305,15 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
         })
     }
 
+    /// Position the first line at the top of the pane, instead of according to the focus height.
+    /// This makes all of the lines visible in a pane that has room for exactly that many lines.
+    fn remove_rows_above(&mut self) {
+        self.focus_line_row = self.focus_line_index as Row;
+        if let Some(focus_point) = &mut self.focus_point {
+            focus_point.row = self.focus_line_row;
+        }
+    }
+
     /// The number of lines in the document.
     fn height(&self) -> Height {
         self.lines.len() as Height
-- 
2.43.0


From 0caf11f86d7ad285e55db0fd36e653bf74a05bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 05/16] fix: proportional panes of zero or huge weight don't
 panic

---
 src/pane/divvy.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pane/divvy.rs b/src/pane/divvy.rs
index d718004..95a6e65 100644
--- a/src/pane/divvy.rs
+++ b/src/pane/divvy.rs
@@ -77,15 +77,20 @@ impl Divvier {
         let mut child_hungers = Vec::new();
         for pane_size in &self.pane_sizes {
             if let PaneSize::Proportional(hunger) = pane_size {
-                child_hungers.push(*hunger);
+                child_hungers.push(*hunger as u128);
             }
         }
-        let total_hunger: usize = child_hungers.iter().sum();
+        let total_hunger: u128 = child_hungers.iter().sum();
+        if total_hunger == 0 {
+            // No one's hungry, so no one gets any cookies.
+            return;
+        }
+        let cookies = self.cookies as u128;
         // Start by allocating each child a guaranteed minimum number of cookies,
         // found as the floor of the real number of cookies they deserve.
         let mut cookie_allocation: Vec<usize> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger / total_hunger)
+            .map(|hunger| (cookies * hunger / total_hunger) as usize)
             .collect();
         // Compute the number of cookies still remaining.
         let allocated_cookies: usize = cookie_allocation.iter().sum();
@@ -93,9 +98,9 @@ impl Divvier {
         // Determine what fraction of a cookie each child still deserves, found as
         // the remainder of the above division. Then hand out the remaining cookies
         // to the children with the largest remainders.
-        let mut remainders: Vec<(usize, usize)> = child_hungers
+        let mut remainders: Vec<(usize, u128)> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger % total_hunger)
+            .map(|hunger| cookies * hunger % total_hunger)
             .enumerate()
             .collect();
         remainders.sort_by(|(_, r1), (_, r2)| r2.cmp(r1));
-- 
2.43.0


From 4ef1fb085fc7242fed3ec336be962843585651bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 06/16] fix: windows of the largest width don't overflow column
 arithmetic

---
 src/pane/display_pane.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index 1ccc556..d84397c 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -64,7 +64,7 @@ where
 
             for row in rect.min_row..rect.max_row {
                 let mut col = rect.min_col;
-                while col + char_width <= rect.max_col {
+                while char_width <= rect.max_col - col {
                     window
                         .display_char(*ch, Pos { row, col }, style, is_full_width)
                         .map_err(PaneError::PrettyWindowError)?;
@@ -418,7 +418,7 @@ where
         for ch in segment.str.chars() {
             let is_full_width = is_char_full_width(ch);
             let char_width = if is_full_width { 2 } else { 1 };
-            if pos.col + char_width > rect.max_col {
+            if char_width > rect.max_col - pos.col {
                 break 'segments_loop;
             }
             window
-- 
2.43.0


From 5f2868e372b1bb9646a05ac4284583d525639ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 07/16] fix: don't iterate over or past every row of an
 unbounded window

---
 src/pane/display_pane.rs     | 14 +++++---------
 src/pane/printing_options.rs |  4 +++-
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index d84397c..d53f4c5 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -264,7 +264,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
 
         let printing_width = options.choose_width(size.width);
         let focus_line_row = options.choose_focus_line_row(size.height);
-        let (mut upward_printer, focused_line, mut downward_printer) = pretty_print(
+        let (upward_printer, focused_line, downward_printer) = pretty_print(
             doc,
             printing_width,
             &options.focus_path,
@@ -282,18 +282,14 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
         };
 
         let mut lines = Vec::new();
-        for _ in 0..focus_line_row {
-            if let Some(line) = upward_printer.next() {
-                lines.push(line?);
-            }
+        for line in upward_printer.take(focus_line_row as usize) {
+            lines.push(line?);
         }
         lines.reverse();
         let focus_line_index = lines.len();
         lines.push(Line::from(focused_line));
-        for _ in (focus_line_row + 1)..size.height {
-            if let Some(line) = downward_printer.next() {
-                lines.push(line?);
-            }
+        for line in downward_printer.take((size.height - 1 - focus_line_row) as usize) {
+            lines.push(line?);
         }
 
         Ok(PrintedDoc {
diff --git a/src/pane/printing_options.rs b/src/pane/printing_options.rs
index e43ee97..b2088bc 100644
--- a/src/pane/printing_options.rs
+++ b/src/pane/printing_options.rs
@@ -37,7 +37,9 @@ impl PrintingOptions {
     pub(crate) fn choose_focus_line_row(&self, pane_height: Height) -> Row {
         assert!(self.focus_height >= 0.0);
         assert!(self.focus_height <= 1.0);
-        f32::round((pane_height - 1) as f32 * self.focus_height) as Row
+        let last_row = pane_height - 1;
+        // `f32` can't represent every large row exactly, so don't go past the last one.
+        (f32::round(last_row as f32 * self.focus_height) as Row).min(last_row)
     }
 
     /// Choose what width to use when pretty-printing the document.
-- 
2.43.0


From fcee9c1130a95d0ff2740e4cc5f70dbdc28671c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 08/16] fix: new branches recompute their children's separator
 flags

---
 src/doc_examples/tree.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/doc_examples/tree.rs b/src/doc_examples/tree.rs
index 7c234ff..62cde3b 100644
--- a/src/doc_examples/tree.rs
+++ b/src/doc_examples/tree.rs
@@ -94,13 +94,10 @@ where
 
     /// Create a new node containing the given children.
     pub fn new_branch(notation: &'static TreeNotation, mut children: Vec<Self>) -> Self {
-        for child in children
-            .iter_mut()
-            .rev()
-            .filter(|child| !child.is_comment)
-            .skip(1)
-        {
-            child.needs_separator = true;
+        let mut seen_non_comment = false;
+        for child in children.iter_mut().rev() {
+            child.needs_separator = !child.is_comment && seen_non_comment;
+            seen_non_comment |= !child.is_comment;
         }
 
         Tree {
-- 
2.43.0


From 7ac97c47db3df61c98186de22f7f8a988dd14f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 09/16] fix: the testing oracle treats empty text after an end
 of line like the printer

---
 src/oracle.rs | 79 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/src/oracle.rs b/src/oracle.rs
index 467462a..08fb7f2 100644
--- a/src/oracle.rs
+++ b/src/oracle.rs
@@ -17,6 +17,21 @@ struct Layout {
     ends_with_eol: bool,
 }
 
+/// What's known about the text up to the next newline.
+#[derive(Clone, Copy)]
+struct FirstLine {
+    len: Width,
+    /// Whether there is any text, even if it's empty.
+    has_text: bool,
+}
+
+impl FirstLine {
+    const EMPTY: FirstLine = FirstLine {
+        len: 0,
+        has_text: false,
+    };
+}
+
 /// Print the document using a simple but slow algorithm; the time is roughly exponential in the
 /// size of the doc. This function should always produce the same output as
 /// [`pretty_print_to_string`](crate::pretty_print_to_string), so it can be used for automated
@@ -27,7 +42,7 @@ pub fn oracular_pretty_print<'d, D: PrettyDoc<'d>>(doc: D, width: Width) -> Stri
         .eval()
         .expect("Notation mismatch in oracle test (root)");
     let layout =
-        pp(Layout::empty(), note, Some(0), width).expect("Notation mismatch in oracle test");
+        pp(Layout::empty(), note, Some(FirstLine::EMPTY), width).expect("Notation mismatch in oracle test");
     format!("{}", layout)
 }
 
@@ -36,9 +51,8 @@ fn pp<'d, D: PrettyDoc<'d>>(
     mut prefix: Layout,
     // The next notation to print
     note: ConsolidatedNotation<'d, D>,
-    // The number of columns known to follow `note`, or `None` if it's followed by `EndOfLine +
-    // Text`.
-    suffix_len: Option<Width>,
+    // The text known to follow `note`, or `None` if it's followed by `EndOfLine + Text`.
+    suffix: Option<FirstLine>,
     // The printing width
     width: Width,
 ) -> Result<Layout, PrintingError<D::Error>> {
@@ -47,7 +61,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
     assert!(width < MAX_WIDTH);
 
     if DEBUG_PRINT {
-        println!("==pp suffix_len:{:?} width:{}", suffix_len, width);
+        println!("==pp suffix_len:{:?} width:{}", suffix.map(|s| s.len), width);
         println!("{}", prefix);
         println!("{}", note);
         println!("==");
@@ -70,24 +84,24 @@ fn pp<'d, D: PrettyDoc<'d>>(
             indent_strings.reverse();
             Ok(prefix.append_newline(indent_strings.join("")))
         }
-        Child(_, x) => pp(prefix, x.eval()?, suffix_len, width),
+        Child(_, x) => pp(prefix, x.eval()?, suffix, width),
         Concat(x, y) => {
             let x = x.eval()?;
             let y = y.eval()?;
-            let x_suffix_len = first_line_len(y.clone(), suffix_len)?.map(|w| w.min(MAX_WIDTH));
-            let y_prefix = pp(prefix, x, x_suffix_len, width)?;
-            pp(y_prefix, y, suffix_len, width)
+            let x_suffix = first_line(y.clone(), suffix)?;
+            let y_prefix = pp(prefix, x, x_suffix, width)?;
+            pp(y_prefix, y, suffix, width)
         }
         Choice(x, y) => {
             let x = x.eval()?;
             let last_len = prefix.last_line_len();
-            let fits = match first_line_len(x.clone(), suffix_len)? {
+            let fits = match first_line(x.clone(), suffix)? {
                 None => false,
-                Some(first_len) => {
-                    if prefix.ends_with_eol && first_len > 0 {
+                Some(first) => {
+                    if prefix.ends_with_eol && first.has_text {
                         false
                     } else {
-                        last_len + first_len <= width
+                        last_len.saturating_add(first.len) <= width
                     }
                 }
             };
@@ -95,39 +109,42 @@ fn pp<'d, D: PrettyDoc<'d>>(
                 println!("fits: {:?} + ? <= {} ? {}", last_len, width, fits);
             }
             let z = if fits { x } else { y.eval()? };
-            pp(prefix, z, suffix_len, width)
+            pp(prefix, z, suffix, width)
         }
     }
 }
 
-/// Compute the smallest possible first line length of `note`, given that its last line will have an
-/// additional `suffix_len` columns after it (where `None` means the suffix contains `EndOfLine +
-/// Textual`). Assumes the rule that "in (x | y), if x fits then y fits", and so always chooses y.
-/// Returns `None` if the first line contains `EndOfLine + Textual`.
-fn first_line_len<'d, D: PrettyDoc<'d>>(
+/// Compute the smallest possible first line of `note`, given that its last line will have an
+/// additional `suffix` after it (where `None` means the suffix contains `EndOfLine + Textual`).
+/// Assumes the rule that "in (x | y), if x fits then y fits", and so always chooses y. Returns
+/// `None` if the first line contains `EndOfLine + Textual`.
+fn first_line<'d, D: PrettyDoc<'d>>(
     note: ConsolidatedNotation<'d, D>,
-    suffix_len: Option<Width>,
-) -> Result<Option<Width>, PrintingError<D::Error>> {
+    suffix: Option<FirstLine>,
+) -> Result<Option<FirstLine>, PrintingError<D::Error>> {
     use ConsolidatedNotation::*;
 
     match note {
-        Empty | FocusMark => Ok(suffix_len),
-        Textual(textual) => Ok(suffix_len.map(|w| textual.width + w)),
-        EndOfLine => match suffix_len {
+        Empty | FocusMark => Ok(suffix),
+        Textual(textual) => Ok(suffix.map(|s| FirstLine {
+            len: textual.width.saturating_add(s.len).min(MAX_WIDTH),
+            has_text: true,
+        })),
+        EndOfLine => match suffix {
             None => Ok(None),
-            Some(0) => Ok(Some(0)), // Followed by a newline, good
-            Some(_) => Ok(None),    // Followed by text, bad
+            Some(s) if s.has_text => Ok(None), // Followed by text, bad
+            Some(s) => Ok(Some(s)),            // Followed by a newline, good
         },
-        Newline(_) => Ok(Some(0)),
-        Child(_, x) => first_line_len(x.eval()?, suffix_len),
+        Newline(_) => Ok(Some(FirstLine::EMPTY)),
+        Child(_, x) => first_line(x.eval()?, suffix),
         Concat(x, y) => {
-            let suffix_len = first_line_len(y.eval()?, suffix_len)?.map(|w| w.min(MAX_WIDTH));
-            first_line_len(x.eval()?, suffix_len)
+            let suffix = first_line(y.eval()?, suffix)?;
+            first_line(x.eval()?, suffix)
         }
         Choice(_, y) => {
             // Wouldn't see a choice if we were flat, so use y.
             // Relies on the rule that in (x | y), y's first line is no longer than x's.
-            first_line_len(y.eval()?, suffix_len)
+            first_line(y.eval()?, suffix)
         }
     }
 }
-- 
2.43.0


From 51147972fde320f4e4642f3f423e7119cfe125ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 10/16] fix: words of JSON comments have the comment style

---
 src/doc_examples/json.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index 84b5be7..ace7cde 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -117,7 +117,8 @@ static JSON_COMMENT_NOTATION: Lazy<TreeNotation> = Lazy::new(|| {
     notation.validate().unwrap()
 });
 
-static JSON_COMMENT_WORD_NOTATION: Lazy<TreeNotation> = Lazy::new(|| text().validate().unwrap());
+static JSON_COMMENT_WORD_NOTATION: Lazy<TreeNotation> =
+    Lazy::new(|| style(COMMENT_STYLE, text()).validate().unwrap());
 
 static JSON_ROOTS_NOTATION: Lazy<TreeNotation> = Lazy::new(|| {
     let notation = count(Count {
-- 
2.43.0


From 0d5760822dbf6c46517c1c489af343f093453139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 11/16] fix: don't recurse over the children that a fold's join
 skips

A join that is only `left` for some children (say, check(IsEmpty, RightChild, left(), ..)) was
evaluated recursively, once per such child in a row, overflowing the stack if there are many.
---
 src/consolidated_notation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index 9f76e9c..fbbfe1c 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -419,7 +419,11 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                         *child = child.unwrap_prev_sibling(*parent, *index - 1)?;
                         *index -= 1;
                         self.notation = *join;
-                        self.eval()
+                        // Don't evaluate `join` right away: if it does nothing but refer to `Left`
+                        // again, the recursion would be as deep as there are children.
+                        let mut empty = self.clone();
+                        empty.notation = &Empty;
+                        Ok(ConsolidatedNotation::Concat(empty, self))
                     }
                 }
             },
-- 
2.43.0


From 6a2418f072e77d5431fe1529419337de555f0361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 12/16] fix: don't overflow the stack when dropping very deep
 indentation

The levels of indentation form a linked list, which was dropped recursively.
---
 src/consolidated_notation.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index fbbfe1c..3691179 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -129,6 +129,20 @@ impl<'d, D: PrettyDoc<'d>> Textual<'d, D> {
     }
 }
 
+impl<'d, D: PrettyDoc<'d>> Drop for IndentNode<'d, D> {
+    /// Drop the parents in a loop, so that the depth of the stack doesn't depend on how deeply the
+    /// document is indented.
+    fn drop(&mut self) {
+        let mut next = self.parent.take();
+        while let Some(mut node) = next {
+            next = match Rc::get_mut(&mut node) {
+                Some(node) => node.parent.take(),
+                None => None, // someone else is still using the rest
+            };
+        }
+    }
+}
+
 impl<'d, D: PrettyDoc<'d>> Clone for Textual<'d, D> {
     fn clone(&self) -> Self {
         Textual {
-- 
2.43.0


From b55d8e88440f223893b3b0a21b1b6e274693d67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:13 +0000
Subject: [PATCH 13/16] fix: Splitting a text at the focus must not change its
 width

The halves of a cluster (an emoji and its modifier, two Arabic letters that join) can be wider than the
whole, so focusing inside of it changed the layout of the line.
---
 src/consolidated_notation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index 3691179..54877e7 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -113,15 +113,23 @@ impl<'d, D: PrettyDoc<'d>> Textual<'d, D> {
             .map(|(byte_pos, _)| byte_pos)
             .unwrap_or(self.str.len());
         let (left_str, right_str) = self.str.split_at(byte_pos);
+        // The two halves of a cluster (like an emoji and its modifier) can be wider than it is. Don't
+        // let splitting the text change how wide it is, as that would change the layout.
+        let left_width = str_width(left_str).min(self.width);
+        let right_width = if self.width == Width::MAX {
+            str_width(right_str) // saturated
+        } else {
+            self.width - left_width
+        };
         let left_textual = Textual {
             str: left_str,
-            width: str_width(left_str),
+            width: left_width,
             style: self.style.clone(),
             is_from_text: self.is_from_text,
         };
         let right_textual = Textual {
             str: right_str,
-            width: str_width(right_str),
+            width: right_width,
             style: self.style,
             is_from_text: self.is_from_text,
         };
-- 
2.43.0


From ff40458e7a767f3a142af74d7cb4a585acfd6be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:13 +0000
Subject: [PATCH 14/16] fix: PlainText lost NUL characters

It used them to mark the second column of full-width characters.
---
 src/pane/plain_text.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/pane/plain_text.rs b/src/pane/plain_text.rs
index 5d5ff80..0930b9a 100644
--- a/src/pane/plain_text.rs
+++ b/src/pane/plain_text.rs
@@ -9,9 +9,9 @@ use std::marker::PhantomData;
 #[derive(Debug)]
 pub struct PlainText<S: Style> {
     /// A line is stored as a vector of characters. Each element represents one column position, so
-    /// a full-width unicode character will be followed by a `SENTINEL` value to indicate that it
-    /// takes up the next column as well.
-    lines: Vec<Vec<char>>,
+    /// a full-width unicode character will be followed by `None` to indicate that it takes up the
+    /// next column as well.
+    lines: Vec<Vec<Option<char>>>,
     /// The size of the window.
     size: Size,
     /// The style is ignored.
@@ -20,16 +20,11 @@ pub struct PlainText<S: Style> {
     focus_points: Vec<Pos>,
 }
 
-// Follows each full-width char.
-const SENTINEL: char = '\0';
-
 impl<S: Style> fmt::Display for PlainText<S> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         for line in &self.lines {
-            for ch in line {
-                if *ch != SENTINEL {
-                    write!(f, "{}", ch)?;
-                }
+            for ch in line.iter().flatten() {
+                write!(f, "{}", ch)?;
             }
             writeln!(f)?;
         }
@@ -82,11 +77,11 @@ impl<S: Style> PrettyWindow for PlainText<S> {
 
         let width = if full_width { 2 } else { 1 };
         if line.len() < col + width {
-            line.resize(col + width, ' ');
+            line.resize(col + width, Some(' '));
         }
-        line[col] = ch;
+        line[col] = Some(ch);
         if full_width {
-            line[col + 1] = SENTINEL;
+            line[col + 1] = None;
         }
         Ok(())
     }
-- 
2.43.0


From 764541cc0cf89524d13693b7d3aaad4a8a0f9d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:13 +0000
Subject: [PATCH 15/16] fix: Errors about child indices in Count.one always
 said index 0

---
 src/valid_notation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valid_notation.rs b/src/valid_notation.rs
index 6ff7402..e799d68 100644
--- a/src/valid_notation.rs
+++ b/src/valid_notation.rs
@@ -31,11 +31,11 @@ pub enum NotationError {
     NestedCount,
     #[error("Notation contains a Child inside Count.zero, but in this case there are guaranteed to be zero children.")]
     CountZeroChild,
-    #[error("Notation contains a Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", 0)]
+    #[error("Notation contains a Child with index {0} inside of Count.one, but in this case there's guaranteed to be only one child.")]
     CountOneChildIndex(isize),
     #[error("Notation contains a CheckPos::Child inside Count.zero, but in this case there are guaranteed to be zero children.")]
     CountZeroCheckPosChild,
-    #[error("Notation contains a CheckPos::Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", 0)]
+    #[error("Notation contains a CheckPos::Child with index {0} inside of Count.one, but in this case there's guaranteed to be only one child.")]
     CountOneCheckPosChildIndex(isize),
     #[error(
         "Notation contains a Text inside a Count, but a node can't have both text and children."
-- 
2.43.0


From e6b0518d2d91d57d08200e3af0e554dbcf376173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:43 +0000
Subject: [PATCH 16/16] fix: The testing oracle measured whole lines, unlike
 the printer

---
 src/oracle.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/oracle.rs b/src/oracle.rs
index 08fb7f2..e991106 100644
--- a/src/oracle.rs
+++ b/src/oracle.rs
@@ -1,6 +1,6 @@
 use crate::{
     consolidated_notation::{ConsolidatedNotation, DelayedConsolidatedNotation, PrintingError},
-    geometry::str_width,
+    geometry::{str_width, sum_widths},
     PrettyDoc, Width,
 };
 use std::fmt;
@@ -13,6 +13,9 @@ const MAX_WIDTH: Width = 10_000;
 /// **Invariant:** there's always at least one line.
 struct Layout {
     lines: Vec<String>,
+    /// The sum of the widths of the texts on the last line of `lines`. (This is what the printer
+    /// goes by; the line as a whole can be narrower, if characters of adjacent texts combine.)
+    last_line_len: Width,
     /// Whether there's an `EndOfLine` at the end of the last line of `lines`.
     ends_with_eol: bool,
 }
@@ -69,7 +72,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
 
     match note {
         Empty | FocusMark => Ok(prefix),
-        Textual(textual) => Ok(prefix.append_text(textual.str)),
+        Textual(textual) => Ok(prefix.append_text(textual.str, textual.width)),
         EndOfLine => {
             prefix.ends_with_eol = true;
             Ok(prefix)
@@ -82,7 +85,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
                 remaining_indentation = &indent_node.parent;
             }
             indent_strings.reverse();
-            Ok(prefix.append_newline(indent_strings.join("")))
+            Ok(prefix.append_newline(indent_strings))
         }
         Child(_, x) => pp(prefix, x.eval()?, suffix, width),
         Concat(x, y) => {
@@ -94,7 +97,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
         }
         Choice(x, y) => {
             let x = x.eval()?;
-            let last_len = prefix.last_line_len();
+            let last_len = prefix.last_line_len;
             let fits = match first_line(x.clone(), suffix)? {
                 None => false,
                 Some(first) => {
@@ -153,28 +156,26 @@ impl Layout {
     fn empty() -> Layout {
         Layout {
             lines: vec![String::new()],
+            last_line_len: 0,
             ends_with_eol: false,
         }
     }
 
-    fn append_newline(mut self, indentation: String) -> Layout {
-        self.lines.push(indentation);
+    fn append_newline(mut self, indentation: Vec<String>) -> Layout {
+        self.last_line_len = sum_widths(indentation.iter().map(|s| str_width(s)));
+        self.lines.push(indentation.concat());
         self.ends_with_eol = false;
         self
     }
 
-    fn append_text(mut self, text: &str) -> Layout {
+    fn append_text(mut self, text: &str, width: Width) -> Layout {
         if self.ends_with_eol {
             panic!("Oracle: encountered EOL + text");
         }
         self.lines.last_mut().unwrap().push_str(text); // relies on invariant
+        self.last_line_len = self.last_line_len.saturating_add(width);
         self
     }
-
-    fn last_line_len(&self) -> Width {
-        let last_line = self.lines.last().unwrap(); // relies on invariant
-        str_width(last_line)
-    }
 }
 
 impl fmt::Display for Layout {
-- 
2.43.0

