From 3142fdd6b16d0d82c456313af9f2021ea376d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:47 +0000
Subject: [PATCH 01/43] fix: collect comments and external links from the whole
 document tree

Comments and external links inside sections, structured data tags and tracked
changes were not collected, so the saved package referred to comments and
relationships that did not exist. A comment with several paragraphs was stored
once per paragraph. Links are now listed in document order instead of hash
order, and collecting twice no longer declares a link twice.
---
 docx-core/src/documents/document_tree.rs |  37 +-
 docx-core/src/documents/mod.rs           | 633 +++--------------------
 2 files changed, 84 insertions(+), 586 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index e1ac0c5..e8e8d8b 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,7 +5,7 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer, FooterChild, Header,
+    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer, FooterChild, Header,
     HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild,
     Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild, StructuredDataTag,
     StructuredDataTagChild, Table, TableCellContent, TableChild, TableOfContents, TableRowChild,
@@ -29,6 +29,12 @@ pub(crate) trait DocumentTreeVisitor {
 
     /// Visits a footnote reference stored in a run.
     fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
+
+    /// Visits the start of a comment range.
+    fn visit_comment_start(&mut self, _start: &mut CommentRangeStart) {}
+
+    /// Visits a hyperlink before its children are traversed.
+    fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
 }
 
 /// Traverses the main document body without crossing into header/footer parts.
@@ -70,9 +76,9 @@ fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTr
         DocumentChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
+        DocumentChild::CommentStart(start) => visitor.visit_comment_start(start),
         DocumentChild::BookmarkStart(_)
         | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentStart(_)
         | DocumentChild::CommentEnd(_) => {}
     }
 }
@@ -84,9 +90,9 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::Table(table) => visit_table(table, visitor),
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
+            SectionChild::CommentStart(start) => visitor.visit_comment_start(start),
             SectionChild::BookmarkStart(_)
             | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentStart(_)
             | SectionChild::CommentEnd(_) => {}
         }
     }
@@ -131,9 +137,9 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
             StructuredDataTagChild::StructuredDataTag(tag) => {
                 visit_structured_data_tag(tag, visitor)
             }
+            StructuredDataTagChild::CommentStart(start) => visitor.visit_comment_start(start),
             StructuredDataTagChild::BookmarkStart(_)
             | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentStart(_)
             | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
@@ -157,9 +163,9 @@ fn visit_paragraph_children(
             ParagraphChild::MoveTo(moved) => visit_move_to(moved, visitor),
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
+            ParagraphChild::CommentStart(start) => visitor.visit_comment_start(start),
             ParagraphChild::BookmarkStart(_)
             | ParagraphChild::BookmarkEnd(_)
-            | ParagraphChild::CommentStart(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
@@ -168,6 +174,7 @@ fn visit_paragraph_children(
 }
 
 fn visit_hyperlink(link: &mut Hyperlink, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_hyperlink(link);
     visit_paragraph_children(&mut link.children, visitor);
 }
 
@@ -176,23 +183,28 @@ fn visit_insert(insert: &mut Insert, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             InsertChild::Run(run) => visit_run(run, visitor),
             InsertChild::Delete(delete) => visit_delete(delete, visitor),
-            InsertChild::CommentStart(_) | InsertChild::CommentEnd(_) => {}
+            InsertChild::CommentStart(start) => visitor.visit_comment_start(start),
+            InsertChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_delete(delete: &mut Delete, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut delete.children {
-        if let DeleteChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            DeleteChild::Run(run) => visit_run(run, visitor),
+            DeleteChild::CommentStart(start) => visitor.visit_comment_start(start),
+            DeleteChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_move_from(moved: &mut MoveFrom, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut moved.children {
-        if let MoveFromChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            MoveFromChild::Run(run) => visit_run(run, visitor),
+            MoveFromChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveFromChild::CommentEnd(_) => {}
         }
     }
 }
@@ -202,7 +214,8 @@ fn visit_move_to(moved: &mut MoveTo, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             MoveToChild::Run(run) => visit_run(run, visitor),
             MoveToChild::Delete(delete) => visit_delete(delete, visitor),
-            MoveToChild::CommentStart(_) | MoveToChild::CommentEnd(_) => {}
+            MoveToChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveToChild::CommentEnd(_) => {}
         }
     }
 }
@@ -217,6 +230,7 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
                 }
             }
             RunChild::FootnoteReference(reference) => visitor.visit_footnote_reference(reference),
+            RunChild::CommentStart(start) => visitor.visit_comment_start(start),
             RunChild::Text(_)
             | RunChild::Sym(_)
             | RunChild::DeleteText(_)
@@ -225,7 +239,6 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
             | RunChild::Break(_)
             | RunChild::CarriageReturn(_)
             | RunChild::Shape(_)
-            | RunChild::CommentStart(_)
             | RunChild::CommentEnd(_)
             | RunChild::FieldChar(_)
             | RunChild::InstrText(_)
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index cdae806..3976848 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,6 +85,7 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
+use self::document_tree::{visit_document, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
     MediaRegistry,
@@ -917,235 +918,56 @@ impl Docx {
         refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
     }
 
-    fn insert_comment_to_map(
-        &self,
-        comment_map: &mut HashMap<usize, String>,
-        c: &CommentRangeStart,
-    ) {
-        let comment = c.get_comment_ref();
-        let comment_id = comment.id();
-        for child in &comment.children {
-            if let CommentChild::Paragraph(child) = child {
-                let para_id = child.id.clone();
-                comment_map.insert(comment_id, para_id);
-            }
-            // TODO: Support table in comment
-        }
-    }
-
     // Traverse and clone comments from document and add to comments node.
     fn update_dependencies(&mut self) {
-        let mut comments: Vec<Comment> = vec![];
-        let mut comments_extended: Vec<CommentExtended> = vec![];
-        let mut comment_map: HashMap<usize, String> = HashMap::new();
-
-        let mut hyperlink_map: HashMap<String, String> = HashMap::new();
-
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            self.insert_comment_to_map(&mut comment_map, c);
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            }
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    self.insert_comment_to_map(&mut comment_map, c);
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_comment_map_in_table(table, &mut comment_map, &mut hyperlink_map);
-                }
-                DocumentChild::TableOfContents(toc) => {
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                }
-                _ => {}
-            }
-        }
+        let mut collector = DependencyCollector::default();
+        visit_document(&mut self.document, &mut collector);
+        let DependencyCollector {
+            comments,
+            hyperlinks,
+        } = collector;
 
-        if comment_map.is_empty() {
-            for (id, path) in hyperlink_map {
+        for (id, path) in hyperlinks {
+            if self.document_rels.hyperlinks.iter().all(|h| h.0 != id) {
                 self.document_rels
                     .hyperlinks
-                    .push((id, path, "External".to_owned()));
+                    .push((id, path, "External".to_string())); // Now support external only
             }
+        }
+
+        if comments.is_empty() {
             return;
         }
 
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            push_comment_and_comment_extended(
-                                &mut comments,
-                                &mut comments_extended,
-                                &comment_map,
-                                c,
-                            );
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            };
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_dependencies_in_table(
-                        table,
-                        &mut comments,
-                        &mut comments_extended,
-                        &mut comment_map,
-                        &mut hyperlink_map,
-                    );
-                }
-                DocumentChild::TableOfContents(toc) => {
-                    // TODO:refine later
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
+        // If this document has comments, set comments.xml to document_rels.
+        // This is because comments.xml without comment cause an error on word online.
+        self.document_rels.has_comments = true;
+
+        // A comment is identified by its last paragraph.
+        let comment_map: HashMap<usize, &str> = comments
+            .iter()
+            .filter_map(|comment| Some((comment.id(), last_para_id(comment)?)))
+            .collect();
+        let mut comments_extended: Vec<CommentExtended> = vec![];
+        for comment in &comments {
+            let Some(para_id) = last_para_id(comment) else {
+                continue;
+            };
+            let comment_extended = CommentExtended::new(para_id);
+            match comment.parent_comment_id {
+                Some(parent_comment_id) => {
+                    if let Some(parent_para_id) = comment_map.get(&parent_comment_id) {
+                        comments_extended
+                            .push(comment_extended.parent_paragraph_id(*parent_para_id));
                     }
                 }
-                _ => {}
+                None => comments_extended.push(comment_extended),
             }
         }
-        // If this document has comments, set comments.xml to document_rels.
-        // This is because comments.xml without comment cause an error on word online.
-        if !comments.is_empty() {
-            self.document_rels.has_comments = true;
-        }
 
         self.comments_extended
             .add_comments_extended(comments_extended);
-
         self.comments.add_comments(comments);
-
-        for (id, d) in hyperlink_map {
-            self.document_rels
-                .hyperlinks
-                .push((id, d, "External".to_string())); // Now support external only
-        }
     }
 
     // Traverse and clone comments from document and add to comments node.
@@ -1155,59 +977,7 @@ impl Docx {
             .iter()
             .map(|comment| (comment.id(), comment))
             .collect();
-        for child in &mut self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &mut paragraph.children {
-                        if let ParagraphChild::CommentStart(ref mut c) = child {
-                            let comment_id = c.get_id();
-                            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                                let comment = Comment::clone(comment);
-                                c.as_mut().comment(comment);
-                            }
-                        }
-                        if let ParagraphChild::Insert(ref mut insert) = child {
-                            for child in &mut insert.children {
-                                if let InsertChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                } else if let InsertChild::Delete(ref mut d) = child {
-                                    for child in &mut d.children {
-                                        if let DeleteChild::CommentStart(ref mut c) = child {
-                                            let comment_id = c.get_id();
-                                            if let Some(comment) =
-                                                comments_by_id.get(&comment_id).copied()
-                                            {
-                                                let comment = Comment::clone(comment);
-                                                c.as_mut().comment(comment);
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let ParagraphChild::Delete(ref mut delete) = child {
-                            for child in &mut delete.children {
-                                if let DeleteChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => store_comments_in_table(table, &comments_by_id),
-                _ => {}
-            }
-        }
+        visit_document(&mut self.document, &mut CommentStorer { comments_by_id });
 
         if !comments.is_empty() {
             self.document_rels.has_comments = true;
@@ -1265,304 +1035,44 @@ impl Docx {
     }
 }
 
-fn collect_dependencies_in_paragraph(
-    paragraph: &Paragraph,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            };
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-                }
-            }
-        }
-    }
+/// Collects comments and external hyperlinks of the main document in order.
+#[derive(Default)]
+struct DependencyCollector {
+    comments: Vec<Comment>,
+    hyperlinks: Vec<(String, String)>,
 }
 
-fn collect_comment_map_in_paragraph(
-    paragraph: &Paragraph,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            let comment = c.get_comment_ref();
-            let comment_id = comment.id();
-            for child in &comment.children {
-                if let CommentChild::Paragraph(child) = child {
-                    comment_map.insert(comment_id, child.id.clone());
-                }
-            }
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            }
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    let comment = c.get_comment_ref();
-                    let comment_id = comment.id();
-                    for child in &comment.children {
-                        if let CommentChild::Paragraph(child) = child {
-                            comment_map.insert(comment_id, child.id.clone());
-                        }
-                    }
-                }
-            }
-        }
+impl DocumentTreeVisitor for DependencyCollector {
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        self.comments.push(start.get_comment_ref().clone());
     }
-}
 
-fn collect_comment_map_in_table(
-    table: &Table,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_comment_map_in_paragraph(paragraph, comment_map, hyperlink_map);
-                    }
-                    TableCellContent::Table(table) => {
-                        collect_comment_map_in_table(table, comment_map, hyperlink_map)
-                    }
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                }
-            }
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &link.link {
+            self.hyperlinks.push((rid.clone(), path.clone()));
         }
     }
 }
 
-fn collect_dependencies_in_table(
-    table: &Table,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_dependencies_in_paragraph(
-                            paragraph,
-                            comments,
-                            comments_extended,
-                            comment_map,
-                            hyperlink_map,
-                        );
-                    }
-                    TableCellContent::Table(table) => collect_dependencies_in_table(
-                        table,
-                        comments,
-                        comments_extended,
-                        comment_map,
-                        hyperlink_map,
-                    ),
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
+/// Replaces comment placeholders by the comments read from comments.xml.
+struct CommentStorer<'a> {
+    comments_by_id: HashMap<usize, &'a Comment>,
 }
 
-fn store_comments_in_paragraph(
-    paragraph: &mut Paragraph,
-    comments_by_id: &HashMap<usize, &Comment>,
-) {
-    for child in &mut paragraph.children {
-        if let ParagraphChild::CommentStart(ref mut c) = child {
-            let comment_id = c.get_id();
-            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                let comment = Comment::clone(comment);
-                c.as_mut().comment(comment);
-            }
-        }
-        if let ParagraphChild::Insert(ref mut insert) = child {
-            for child in &mut insert.children {
-                if let InsertChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
-        }
-        if let ParagraphChild::Delete(ref mut delete) = child {
-            for child in &mut delete.children {
-                if let DeleteChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
+impl DocumentTreeVisitor for CommentStorer<'_> {
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        if let Some(comment) = self.comments_by_id.get(&start.get_id()).copied() {
+            start.comment(comment.clone());
         }
     }
 }
 
-fn store_comments_in_table(table: &mut Table, comments_by_id: &HashMap<usize, &Comment>) {
-    for TableChild::TableRow(row) in &mut table.rows {
-        for TableRowChild::TableCell(cell) in &mut row.cells {
-            for content in &mut cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        store_comments_in_paragraph(paragraph, comments_by_id)
-                    }
-                    TableCellContent::Table(ref mut table) => {
-                        store_comments_in_table(table, comments_by_id);
-                    }
-                    TableCellContent::StructuredDataTag(ref mut tag) => {
-                        for child in &mut tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(ref mut t) => {
-                        for child in &mut t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-
-                        for child in &mut t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
+fn last_para_id(comment: &Comment) -> Option<&str> {
+    // TODO: Support table in comment
+    comment.children.iter().rev().find_map(|child| match child {
+        CommentChild::Paragraph(paragraph) => Some(paragraph.id.as_str()),
+        _ => None,
+    })
 }
 
 fn collect_para_ids_in_docx<'a>(docx: &'a Docx, counts: &mut HashMap<&'a str, usize>) {
@@ -2264,31 +1774,6 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
-fn push_comment_and_comment_extended(
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &HashMap<usize, String>,
-    c: &CommentRangeStart,
-) {
-    let comment = c.get_comment_ref();
-    for child in &comment.children {
-        if let CommentChild::Paragraph(child) = child {
-            let para_id = child.id.clone();
-            comments.push(comment.clone());
-            let comment_extended = CommentExtended::new(para_id);
-            if let Some(parent_comment_id) = comment.parent_comment_id {
-                if let Some(parent_para_id) = comment_map.get(&parent_comment_id) {
-                    comments_extended
-                        .push(comment_extended.parent_paragraph_id(parent_para_id.clone()));
-                }
-            } else {
-                comments_extended.push(comment_extended);
-            }
-        }
-        // TODO: Support table in comment
-    }
-}
-
 /// Populates an automatic TOC and bookmarks matching headings in place.
 ///
 /// `document_children[toc_index]` is the temporary placeholder installed by
-- 
2.43.0


From f7f6b73e109e934e1f9d2122fa65624d35c0cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:12 +0000
Subject: [PATCH 02/43] fix: declare external links used in headers and footers

The relationships of a header or footer only listed its images, so an external
link there referred to a relationship that did not exist.
---
 docx-core/src/documents/footer_rels.rs     | 13 ++++
 docx-core/src/documents/header_rels.rs     | 13 ++++
 docx-core/src/documents/image_collector.rs | 46 ++++++++++++-
 docx-core/src/documents/mod.rs             | 79 ++++++++--------------
 4 files changed, 101 insertions(+), 50 deletions(-)

diff --git a/docx-core/src/documents/footer_rels.rs b/docx-core/src/documents/footer_rels.rs
index 27a0b51..560b152 100644
--- a/docx-core/src/documents/footer_rels.rs
+++ b/docx-core/src/documents/footer_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct FooterRels {
     pub images: Vec<(String, String)>,
+    pub hyperlinks: Vec<(String, String, String)>,
 }
 
 impl FooterRels {
@@ -22,6 +23,10 @@ impl FooterRels {
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
+
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
 }
 
 impl BuildXML for FooterRels {
@@ -39,6 +44,14 @@ impl BuildXML for FooterRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path, r#type), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    r#type,
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/header_rels.rs b/docx-core/src/documents/header_rels.rs
index f718643..b2442fc 100644
--- a/docx-core/src/documents/header_rels.rs
+++ b/docx-core/src/documents/header_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct HeaderRels {
     pub images: Vec<(String, String)>,
+    pub hyperlinks: Vec<(String, String, String)>,
 }
 
 impl HeaderRels {
@@ -22,6 +23,10 @@ impl HeaderRels {
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
+
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
 }
 
 impl BuildXML for HeaderRels {
@@ -39,6 +44,14 @@ impl BuildXML for HeaderRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path, r#type), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    r#type,
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index a57ca5e..0b00fc1 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -8,7 +8,8 @@ use std::collections::{HashMap, HashSet};
 
 use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use crate::{
-    Document, Footer, Footnote, FootnoteReference, Header, ImageIdAndBuf, ImageIdAndPath, Pic,
+    Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
+    ImageIdAndPath, Pic,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -106,6 +107,13 @@ impl MediaRegistry {
 pub(crate) struct CollectedPart {
     pub(crate) relationships: Vec<ImageIdAndPath>,
     pub(crate) footnotes: Vec<Footnote>,
+    pub(crate) hyperlinks: Vec<(String, String, String)>,
+}
+
+impl CollectedPart {
+    pub(crate) fn has_relationships(&self) -> bool {
+        !self.relationships.is_empty() || !self.hyperlinks.is_empty()
+    }
 }
 
 /// Collects media relationships and footnotes while visiting one XML part.
@@ -123,6 +131,7 @@ struct PackagePartCollector<'a> {
     /// Maps media to the owning relationship entry, avoiding another owned ID.
     relationships_by_media: HashMap<usize, usize>,
     footnotes: Vec<Footnote>,
+    hyperlinks: HyperlinkRegistry,
 }
 
 impl<'a> PackagePartCollector<'a> {
@@ -135,6 +144,7 @@ impl<'a> PackagePartCollector<'a> {
             next_relationship_suffix_by_id: HashMap::new(),
             relationships_by_media: HashMap::new(),
             footnotes: Vec::new(),
+            hyperlinks: HyperlinkRegistry::default(),
         }
     }
 
@@ -142,6 +152,7 @@ impl<'a> PackagePartCollector<'a> {
         CollectedPart {
             relationships: self.relationships,
             footnotes: self.footnotes,
+            hyperlinks: self.hyperlinks.into_hyperlinks(),
         }
     }
 
@@ -209,6 +220,39 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
     fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
         self.footnotes.push(reference.into());
     }
+
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        self.hyperlinks.register(link);
+    }
+}
+
+/// Collects the external links of one part, each relationship ID once.
+#[derive(Default)]
+pub(crate) struct HyperlinkRegistry {
+    hyperlinks: Vec<(String, String, String)>,
+    ids: HashSet<String>,
+}
+
+impl HyperlinkRegistry {
+    /// Continues with relationships that are already declared.
+    pub(crate) fn with_declared(hyperlinks: Vec<(String, String, String)>) -> Self {
+        let ids = hyperlinks.iter().map(|(id, _, _)| id.clone()).collect();
+        Self { hyperlinks, ids }
+    }
+
+    pub(crate) fn register(&mut self, link: &mut Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &link.link {
+            if self.ids.insert(rid.clone()) {
+                // Now support external only
+                self.hyperlinks
+                    .push((rid.clone(), path.clone(), "External".to_owned()));
+            }
+        }
+    }
+
+    pub(crate) fn into_hyperlinks(self) -> Vec<(String, String, String)> {
+        self.hyperlinks
+    }
 }
 
 /// Collects package data from the complete main document tree in one pass.
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 3976848..104467e 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -88,7 +88,7 @@ use serde::{ser, Serialize};
 use self::document_tree::{visit_document, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
-    MediaRegistry,
+    HyperlinkRegistry, MediaRegistry,
 };
 
 #[derive(Debug, Clone)]
@@ -848,28 +848,10 @@ impl Docx {
 
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
-        let header_images = self.collect_header_images(&mut media);
-        let footer_images = self.collect_footer_images(&mut media);
+        let header_rels = self.collect_header_rels(&mut media);
+        let footer_rels = self.collect_footer_rels(&mut media);
         self.document_rels.images = document_part.relationships;
 
-        let header_rels = header_images
-            .into_iter()
-            .map(|(index, images)| {
-                let mut rels = HeaderRels::new();
-                rels.set_images(images);
-                (index, rels)
-            })
-            .collect();
-
-        let footer_rels = footer_images
-            .into_iter()
-            .map(|(index, images)| {
-                let mut rels = FooterRels::new();
-                rels.set_images(images);
-                (index, rels)
-            })
-            .collect();
-
         if !document_part.footnotes.is_empty() {
             self.footnotes.add(document_part.footnotes);
             self.content_type = std::mem::take(&mut self.content_type).add_footnotes();
@@ -920,20 +902,18 @@ impl Docx {
 
     // Traverse and clone comments from document and add to comments node.
     fn update_dependencies(&mut self) {
-        let mut collector = DependencyCollector::default();
+        let mut collector = DependencyCollector {
+            comments: vec![],
+            hyperlinks: HyperlinkRegistry::with_declared(std::mem::take(
+                &mut self.document_rels.hyperlinks,
+            )),
+        };
         visit_document(&mut self.document, &mut collector);
         let DependencyCollector {
             comments,
             hyperlinks,
         } = collector;
-
-        for (id, path) in hyperlinks {
-            if self.document_rels.hyperlinks.iter().all(|h| h.0 != id) {
-                self.document_rels
-                    .hyperlinks
-                    .push((id, path, "External".to_string())); // Now support external only
-            }
-        }
+        self.document_rels.hyperlinks = hyperlinks.into_hyperlinks();
 
         if comments.is_empty() {
             return;
@@ -984,40 +964,44 @@ impl Docx {
         }
     }
 
-    /// Collects image relationships for every header in package order.
+    /// Collects image and link relationships for every header in package order.
     ///
     /// Each entry deliberately uses a separate relationship scope while all
     /// entries share the package-wide media registry. Relationship creation
     /// order matches the order used to render and write header parts.
-    fn collect_header_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_header_rels(&mut self, media: &mut MediaRegistry) -> Vec<(usize, HeaderRels)> {
         self.document
             .headers_mut()
             .enumerate()
             .filter_map(|(index, (_, header))| {
-                let relationships = collect_header_part(header, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_header_part(header, media);
+                part.has_relationships().then(|| {
+                    let mut rels = HeaderRels::new();
+                    rels.set_images(part.relationships);
+                    rels.set_hyperlinks(part.hyperlinks);
+                    (index, rels)
+                })
             })
             .collect()
     }
 
-    /// Collects image relationships for every footer in package order.
+    /// Collects image and link relationships for every footer in package order.
     ///
     /// Relationship creation order matches the package writer. A shared
     /// registry prevents repeated footer and body images from being emitted as
     /// separate physical media files.
-    fn collect_footer_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_footer_rels(&mut self, media: &mut MediaRegistry) -> Vec<(usize, FooterRels)> {
         self.document
             .footers_mut()
             .enumerate()
             .filter_map(|(index, (_, footer))| {
-                let relationships = collect_footer_part(footer, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_footer_part(footer, media);
+                part.has_relationships().then(|| {
+                    let mut rels = FooterRels::new();
+                    rels.set_images(part.relationships);
+                    rels.set_hyperlinks(part.hyperlinks);
+                    (index, rels)
+                })
             })
             .collect()
     }
@@ -1036,10 +1020,9 @@ impl Docx {
 }
 
 /// Collects comments and external hyperlinks of the main document in order.
-#[derive(Default)]
 struct DependencyCollector {
     comments: Vec<Comment>,
-    hyperlinks: Vec<(String, String)>,
+    hyperlinks: HyperlinkRegistry,
 }
 
 impl DocumentTreeVisitor for DependencyCollector {
@@ -1048,9 +1031,7 @@ impl DocumentTreeVisitor for DependencyCollector {
     }
 
     fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
-        if let HyperlinkData::External { rid, path } = &link.link {
-            self.hyperlinks.push((rid.clone(), path.clone()));
-        }
+        self.hyperlinks.register(link);
     }
 }
 
-- 
2.43.0


From b4612c0e6ac56f41e984d2834244b6907347afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:49 +0000
Subject: [PATCH 03/43] fix: relate numbering definitions whenever a paragraph
 uses them

Numbered paragraphs in nested containers, headers and documents passed to
Docx::document did not set the flag, so the numbering part was written but not
related to the document.
---
 docx-core/src/documents/image_collector.rs | 10 +++++++++-
 docx-core/src/documents/mod.rs             |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 0b00fc1..8ab76db 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -9,7 +9,7 @@ use std::collections::{HashMap, HashSet};
 use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use crate::{
     Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
-    ImageIdAndPath, Pic,
+    ImageIdAndPath, Paragraph, Pic,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -108,6 +108,7 @@ pub(crate) struct CollectedPart {
     pub(crate) relationships: Vec<ImageIdAndPath>,
     pub(crate) footnotes: Vec<Footnote>,
     pub(crate) hyperlinks: Vec<(String, String, String)>,
+    pub(crate) has_numbering: bool,
 }
 
 impl CollectedPart {
@@ -132,6 +133,7 @@ struct PackagePartCollector<'a> {
     relationships_by_media: HashMap<usize, usize>,
     footnotes: Vec<Footnote>,
     hyperlinks: HyperlinkRegistry,
+    has_numbering: bool,
 }
 
 impl<'a> PackagePartCollector<'a> {
@@ -145,6 +147,7 @@ impl<'a> PackagePartCollector<'a> {
             relationships_by_media: HashMap::new(),
             footnotes: Vec::new(),
             hyperlinks: HyperlinkRegistry::default(),
+            has_numbering: false,
         }
     }
 
@@ -153,6 +156,7 @@ impl<'a> PackagePartCollector<'a> {
             relationships: self.relationships,
             footnotes: self.footnotes,
             hyperlinks: self.hyperlinks.into_hyperlinks(),
+            has_numbering: self.has_numbering,
         }
     }
 
@@ -193,6 +197,10 @@ impl<'a> PackagePartCollector<'a> {
 }
 
 impl DocumentTreeVisitor for PackagePartCollector<'_> {
+    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+        self.has_numbering |= paragraph.property.numbering_property.is_some();
+    }
+
     fn visit_picture(&mut self, picture: &mut Pic) {
         let preferred_relationship_id = self.relationship_id(&picture.id);
         let media_index = self.registry.register(
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 104467e..d910cf4 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -851,6 +851,7 @@ impl Docx {
         let header_rels = self.collect_header_rels(&mut media);
         let footer_rels = self.collect_footer_rels(&mut media);
         self.document_rels.images = document_part.relationships;
+        self.document_rels.has_numberings |= document_part.has_numbering;
 
         if !document_part.footnotes.is_empty() {
             self.footnotes.add(document_part.footnotes);
@@ -970,11 +971,13 @@ impl Docx {
     /// entries share the package-wide media registry. Relationship creation
     /// order matches the order used to render and write header parts.
     fn collect_header_rels(&mut self, media: &mut MediaRegistry) -> Vec<(usize, HeaderRels)> {
+        let has_numberings = &mut self.document_rels.has_numberings;
         self.document
             .headers_mut()
             .enumerate()
             .filter_map(|(index, (_, header))| {
                 let part = collect_header_part(header, media);
+                *has_numberings |= part.has_numbering;
                 part.has_relationships().then(|| {
                     let mut rels = HeaderRels::new();
                     rels.set_images(part.relationships);
@@ -991,11 +994,13 @@ impl Docx {
     /// registry prevents repeated footer and body images from being emitted as
     /// separate physical media files.
     fn collect_footer_rels(&mut self, media: &mut MediaRegistry) -> Vec<(usize, FooterRels)> {
+        let has_numberings = &mut self.document_rels.has_numberings;
         self.document
             .footers_mut()
             .enumerate()
             .filter_map(|(index, (_, footer))| {
                 let part = collect_footer_part(footer, media);
+                *has_numberings |= part.has_numbering;
                 part.has_relationships().then(|| {
                     let mut rels = FooterRels::new();
                     rels.set_images(part.relationships);
-- 
2.43.0


From 1bd3dadc023132543deedd2285e1bf1f7a6427f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:14 +0000
Subject: [PATCH 04/43] fix: keep the parts of several custom XML items apart

The first custom item shared its relationship id with the footnotes part, all
items pointed to the properties of the first one, and the content type was
declared under the number of web extensions.
---
 docx-core/src/documents/content_types.rs    |  2 +-
 docx-core/src/documents/custom_item_rels.rs | 10 +++++++++-
 docx-core/src/documents/document_rels.rs    |  2 +-
 docx-core/src/documents/mod.rs              |  4 +++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 8bbd8bf..2cc90a1 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -106,7 +106,7 @@ impl ContentTypes {
 
     pub fn add_custom_xml(mut self) -> Self {
         self.types.insert(
-            format!("/customXml/itemProps{}.xml", self.web_extension_count),
+            format!("/customXml/itemProps{}.xml", self.custom_xml_count),
             "application/vnd.openxmlformats-officedocument.customXmlProperties+xml".to_owned(),
         );
         self.custom_xml_count += 1;
diff --git a/docx-core/src/documents/custom_item_rels.rs b/docx-core/src/documents/custom_item_rels.rs
index 2cb0c74..3b0caa9 100644
--- a/docx-core/src/documents/custom_item_rels.rs
+++ b/docx-core/src/documents/custom_item_rels.rs
@@ -8,6 +8,9 @@ use crate::xml_builder::*;
 #[serde(rename_all = "camelCase")]
 pub struct CustomItemRels {
     custom_item_count: usize,
+    // Number of items that belong to the preceding parts.
+    #[serde(skip)]
+    offset: usize,
 }
 
 impl CustomItemRels {
@@ -15,6 +18,11 @@ impl CustomItemRels {
         Default::default()
     }
 
+    pub(crate) fn offset(mut self, offset: usize) -> Self {
+        self.offset = offset;
+        self
+    }
+
     pub fn add_item(mut self) -> Self {
         self.custom_item_count += 1;
         self
@@ -33,7 +41,7 @@ impl BuildXML for CustomItemRels {
                 b.relationship(
           &format!("rId{}", id + 1),
           "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXmlProps",
-          &format!("itemProps{}.xml", id + 1),
+          &format!("itemProps{}.xml", self.offset + id + 1),
         )
             })?
             .close()?
diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index 2edfb2f..a7a6d93 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -110,7 +110,7 @@ impl BuildXML for DocumentRels {
             })?
             .apply_each(0..self.custom_xml_count, |i, b| {
                 b.relationship(
-                    &format!("rId{}", i + 8),
+                    &format!("rId{}", i + 9),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXml",
                     &format!("../customXml/item{}.xml", i + 1),
                 )
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index d910cf4..5af49ed 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -685,7 +685,9 @@ impl Docx {
     pub fn add_custom_item(mut self, id: &str, xml: &str) -> Self {
         let x = CustomItem::from_str(xml).expect("should parse xml string");
         self.content_type = self.content_type.add_custom_xml();
-        let rel = CustomItemRels::new().add_item();
+        let rel = CustomItemRels::new()
+            .offset(self.custom_items.len())
+            .add_item();
         self.custom_item_props.push(CustomItemProperty::new(id));
         self.document_rels = self.document_rels.add_custom_item();
         self.custom_item_rels.push(rel);
-- 
2.43.0


From 65a97e4602a4744d86009ac03881b339c4239df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:37:17 +0000
Subject: [PATCH 05/43] fix: number headers and footers in the order their
 parts are written

---
 docx-core/src/documents/content_types.rs      | 20 ++++++++
 docx-core/src/documents/document.rs           | 10 ++++
 .../documents/elements/section_property.rs    | 46 +++++++++++++++++++
 docx-core/src/documents/mod.rs                | 16 +++++++
 4 files changed, 92 insertions(+)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 2cc90a1..b4e309a 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -130,6 +130,26 @@ impl ContentTypes {
         );
         self
     }
+
+    /// Declares exactly the given number of header and footer parts.
+    pub(crate) fn set_header_and_footer_count(mut self, headers: usize, footers: usize) -> Self {
+        for n in 1..=self.header_count {
+            self.types.remove(&format!("/word/header{n}.xml"));
+        }
+        for n in 1..=self.footer_count {
+            self.types.remove(&format!("/word/footer{n}.xml"));
+        }
+        self.header_count = 0;
+        self.footer_count = 0;
+        for _ in 0..headers {
+            self = self.add_header();
+        }
+        for _ in 0..footers {
+            self = self.add_footer();
+        }
+        self
+    }
+
     pub fn add_footnotes(mut self) -> Self {
         self.types.insert(
             "/word/footnotes.xml".to_owned(),
diff --git a/docx-core/src/documents/document.rs b/docx-core/src/documents/document.rs
index 3e66aa4..1d9bf4d 100644
--- a/docx-core/src/documents/document.rs
+++ b/docx-core/src/documents/document.rs
@@ -269,6 +269,16 @@ impl Document {
         )
     }
 
+    /// Iterates section properties in the same order as [`Self::headers`].
+    pub(crate) fn section_properties_mut(&mut self) -> impl Iterator<Item = &mut SectionProperty> {
+        std::iter::once(&mut self.section_property).chain(self.children.iter_mut().filter_map(
+            |child| match child {
+                DocumentChild::Section(section) => Some(&mut section.property),
+                _ => None,
+            },
+        ))
+    }
+
     /// Iterates mutable headers in the same order as [`Self::headers`].
     pub(crate) fn headers_mut(&mut self) -> impl Iterator<Item = &mut (String, Header)> {
         self.section_property.headers_mut().chain(
diff --git a/docx-core/src/documents/elements/section_property.rs b/docx-core/src/documents/elements/section_property.rs
index 74b8f9b..ee2c2f8 100644
--- a/docx-core/src/documents/elements/section_property.rs
+++ b/docx-core/src/documents/elements/section_property.rs
@@ -181,6 +181,52 @@ impl SectionProperty {
         .filter_map(Option::as_mut)
     }
 
+    /// Points every header reference at its part, counting parts in package order.
+    pub(crate) fn number_headers(&mut self, count: &mut usize) {
+        for (kind, reference, header) in [
+            ("default", &mut self.header_reference, &mut self.header),
+            (
+                "first",
+                &mut self.first_header_reference,
+                &mut self.first_header,
+            ),
+            (
+                "even",
+                &mut self.even_header_reference,
+                &mut self.even_header,
+            ),
+        ] {
+            if let Some((rid, _)) = header {
+                *count += 1;
+                *rid = crate::create_header_rid(*count);
+                *reference = Some(HeaderReference::new(kind, rid.as_str()));
+            }
+        }
+    }
+
+    /// Points every footer reference at its part, counting parts in package order.
+    pub(crate) fn number_footers(&mut self, count: &mut usize) {
+        for (kind, reference, footer) in [
+            ("default", &mut self.footer_reference, &mut self.footer),
+            (
+                "first",
+                &mut self.first_footer_reference,
+                &mut self.first_footer,
+            ),
+            (
+                "even",
+                &mut self.even_footer_reference,
+                &mut self.even_footer,
+            ),
+        ] {
+            if let Some((rid, _)) = footer {
+                *count += 1;
+                *rid = crate::create_footer_rid(*count);
+                *reference = Some(FooterReference::new(kind, rid.as_str()));
+            }
+        }
+    }
+
     pub fn page_num_type(mut self, h: PageNumType) -> Self {
         self.page_num_type = Some(h);
         self
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 5af49ed..62820ce 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -847,6 +847,7 @@ impl Docx {
     /// streaming package output.
     fn prepare_package(&mut self) -> PackageMetadata {
         let has_toc = self.prepare_for_build();
+        self.number_headers_and_footers();
 
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
@@ -882,6 +883,21 @@ impl Docx {
         }
     }
 
+    /// Makes references, relationships and content types of headers and footers
+    /// follow the order in which their parts are written, whatever the order in
+    /// which they were attached or replaced.
+    fn number_headers_and_footers(&mut self) {
+        let (mut headers, mut footers) = (0, 0);
+        for property in self.document.section_properties_mut() {
+            property.number_headers(&mut headers);
+            property.number_footers(&mut footers);
+        }
+        self.document_rels.header_count = headers;
+        self.document_rels.footer_count = footers;
+        self.content_type = std::mem::take(&mut self.content_type)
+            .set_header_and_footer_count(headers, footers);
+    }
+
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
         let mut counts: HashMap<&str, usize> = HashMap::new();
-- 
2.43.0


From 27306489ac07842b00e44e5806bda1747ccb5ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:32 +0000
Subject: [PATCH 06/43] fix: hand out generated ids atomically

---
 docx-core/src/documents/bookmark_id.rs                  | 4 +---
 docx-core/src/documents/footnote_id.rs                  | 4 +---
 docx-core/src/documents/history_id.rs                   | 3 +--
 docx-core/src/documents/hyperlink_id.rs                 | 4 +---
 docx-core/src/documents/paragraph_property_change_id.rs | 3 +--
 docx-core/src/documents/pic_id.rs                       | 4 +---
 docx-core/src/documents/toc_key.rs                      | 3 +--
 7 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/docx-core/src/documents/bookmark_id.rs b/docx-core/src/documents/bookmark_id.rs
index d418935..900eb06 100644
--- a/docx-core/src/documents/bookmark_id.rs
+++ b/docx-core/src/documents/bookmark_id.rs
@@ -7,9 +7,7 @@ static BOOKMARK_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_bookmark_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = BOOKMARK_ID.load(Ordering::Relaxed);
-    BOOKMARK_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    BOOKMARK_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(not(test))]
diff --git a/docx-core/src/documents/footnote_id.rs b/docx-core/src/documents/footnote_id.rs
index f947529..f9ae56a 100644
--- a/docx-core/src/documents/footnote_id.rs
+++ b/docx-core/src/documents/footnote_id.rs
@@ -7,9 +7,7 @@ static FOOTNOTE_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_footnote_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = FOOTNOTE_ID.load(Ordering::Relaxed);
-    FOOTNOTE_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    FOOTNOTE_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/history_id.rs b/docx-core/src/documents/history_id.rs
index 77f1be4..8b6ab2f 100644
--- a/docx-core/src/documents/history_id.rs
+++ b/docx-core/src/documents/history_id.rs
@@ -8,8 +8,7 @@ pub trait HistoryId {
     fn generate(&self) -> String {
         use std::sync::atomic::Ordering;
 
-        let id = HISTORY_ID.load(Ordering::Relaxed);
-        HISTORY_ID.store(id + 1, Ordering::Relaxed);
+        let id = HISTORY_ID.fetch_add(1, Ordering::Relaxed);
         format!("{id}")
     }
 }
diff --git a/docx-core/src/documents/hyperlink_id.rs b/docx-core/src/documents/hyperlink_id.rs
index d972142..4a7184a 100644
--- a/docx-core/src/documents/hyperlink_id.rs
+++ b/docx-core/src/documents/hyperlink_id.rs
@@ -7,9 +7,7 @@ static HYPERLINK_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_hyperlink_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = HYPERLINK_ID.load(Ordering::Relaxed);
-    HYPERLINK_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    HYPERLINK_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/paragraph_property_change_id.rs b/docx-core/src/documents/paragraph_property_change_id.rs
index bb35284..7624bc6 100644
--- a/docx-core/src/documents/paragraph_property_change_id.rs
+++ b/docx-core/src/documents/paragraph_property_change_id.rs
@@ -8,8 +8,7 @@ pub trait ParagraphPropertyChangeId {
     fn generate(&self) -> String {
         use std::sync::atomic::Ordering;
 
-        let id = HISTORY_ID.load(Ordering::Relaxed);
-        HISTORY_ID.store(id + 1, Ordering::Relaxed);
+        let id = HISTORY_ID.fetch_add(1, Ordering::Relaxed);
         format!("{id}")
     }
 }
diff --git a/docx-core/src/documents/pic_id.rs b/docx-core/src/documents/pic_id.rs
index b9939aa..3fd5f91 100644
--- a/docx-core/src/documents/pic_id.rs
+++ b/docx-core/src/documents/pic_id.rs
@@ -7,9 +7,7 @@ static PIC_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_pic_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = PIC_ID.load(Ordering::Relaxed);
-    PIC_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    PIC_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/toc_key.rs b/docx-core/src/documents/toc_key.rs
index 6de125f..27d62a5 100644
--- a/docx-core/src/documents/toc_key.rs
+++ b/docx-core/src/documents/toc_key.rs
@@ -8,8 +8,7 @@ pub trait TocKeyGenerator {
     fn generate() -> String {
         use std::sync::atomic::Ordering;
 
-        let id = TOC_KEY.load(Ordering::Relaxed);
-        TOC_KEY.store(id + 1, Ordering::Relaxed);
+        let id = TOC_KEY.fetch_add(1, Ordering::Relaxed);
         format!("_Toc{id:08}")
     }
 }
-- 
2.43.0


From a6578a05e9451444a5b4336439f55a2b1c0aab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:53 +0000
Subject: [PATCH 07/43] fix: flush the output before reporting a save as done

---
 docx-core/src/zipper/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/zipper/mod.rs b/docx-core/src/zipper/mod.rs
index c1b9b3c..76ba717 100644
--- a/docx-core/src/zipper/mod.rs
+++ b/docx-core/src/zipper/mod.rs
@@ -146,7 +146,7 @@ where
         zip.write_all(&xml.custom_item_props[i])?;
     }
 
-    zip.finish()?;
+    zip.finish()?.flush()?;
     Ok(())
 }
 
@@ -392,6 +392,6 @@ where
         )?;
     }
 
-    zip.finish()?;
+    zip.finish()?.flush()?;
     Ok(())
 }
-- 
2.43.0


From 8d180d4aad28c2da0b637d39ba0b5ec207f26b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:15 +0000
Subject: [PATCH 08/43] fix: write custom properties in a stable order

---
 docx-core/src/documents/doc_props/custom.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/doc_props/custom.rs b/docx-core/src/documents/doc_props/custom.rs
index 41cb22f..b4a107e 100644
--- a/docx-core/src/documents/doc_props/custom.rs
+++ b/docx-core/src/documents/doc_props/custom.rs
@@ -26,13 +26,15 @@ impl BuildXML for CustomProps {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // The map has no stable order, the package must have one.
+        let properties: std::collections::BTreeMap<_, _> = self.properties.iter().collect();
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_custom_properties(
                 "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties",
                 "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes",
             )?
-            .apply_each(self.properties.iter().enumerate(), |(i, (key, item)), b| {
+            .apply_each(properties.into_iter().enumerate(), |(i, (key, item)), b| {
                 b.open_property(
                     "{D5CDD505-2E9C-101B-9397-08002B2CF9AE}",
                     // I can not find spec about this id.
-- 
2.43.0


From 1e48a6d7ae30be328849512b971b5809b724ec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:19 +0000
Subject: [PATCH 09/43] fix: keep paragraph ids created while rendering and in
 footnotes unique

---
 docx-core/src/documents/mod.rs          | 47 +++++++++++++++++--------
 docx-core/src/documents/paragraph_id.rs | 36 ++++++++++++++++---
 2 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 62820ce..99aa03a 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -732,7 +732,7 @@ impl Docx {
         let header_rels = build_sparse_relationships(package.header_rels);
         let footer_rels = build_sparse_relationships(package.footer_rels);
 
-        XMLDocx {
+        let xml = XMLDocx {
             content_type: self.content_type.build(),
             rels: self.rels.build(),
             doc_props: self.doc_props.build(),
@@ -756,7 +756,9 @@ impl Docx {
             custom_item_rels,
             custom_item_props,
             footnotes: self.footnotes.build(),
-        }
+        };
+        crate::reserve_para_ids(&HashSet::new());
+        xml
     }
 
     /// Writes this document directly as a DOCX ZIP archive.
@@ -769,7 +771,9 @@ impl Docx {
         W: std::io::Write + std::io::Seek,
     {
         let package = self.prepare_package();
-        crate::zipper::zip_docx(writer, self, package)
+        let result = crate::zipper::zip_docx(writer, self, package);
+        crate::reserve_para_ids(&HashSet::new());
+        result
     }
 
     pub fn json(&self) -> String {
@@ -898,7 +902,8 @@ impl Docx {
             .set_header_and_footer_count(headers, footers);
     }
 
-    /// Replaces empty and duplicate paragraph IDs with unique values.
+    /// Replaces empty and duplicate paragraph IDs with unique values and keeps
+    /// them from being handed out again while the document is rendered.
     fn refresh_duplicate_para_ids(&mut self) {
         let mut counts: HashMap<&str, usize> = HashMap::new();
         collect_para_ids_in_docx(self, &mut counts);
@@ -909,14 +914,12 @@ impl Docx {
             .map(|(id, _)| (*id).to_owned())
             .collect();
         let has_empty_id = counts.contains_key("");
-        if duplicates.is_empty() && !has_empty_id {
-            return;
-        }
-
         let mut used: HashSet<String> = counts.into_keys().map(str::to_owned).collect();
-        let mut seen: HashSet<String> = HashSet::new();
-
-        refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
+        if !duplicates.is_empty() || has_empty_id {
+            let mut seen: HashSet<String> = HashSet::new();
+            refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
+        }
+        crate::reserve_para_ids(&used);
     }
 
     // Traverse and clone comments from document and add to comments node.
@@ -1303,8 +1306,14 @@ fn collect_para_ids_in_move_to<'a>(moved: &'a MoveTo, counts: &mut HashMap<&'a s
 
 fn collect_para_ids_in_run<'a>(run: &'a Run, counts: &mut HashMap<&'a str, usize>) {
     for child in &run.children {
-        if let RunChild::CommentStart(c) = child {
-            collect_para_ids_in_comment(&c.comment, counts);
+        match child {
+            RunChild::CommentStart(c) => collect_para_ids_in_comment(&c.comment, counts),
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &reference.content {
+                    collect_para_ids_in_paragraph(paragraph, counts);
+                }
+            }
+            _ => {}
         }
     }
 }
@@ -1688,8 +1697,16 @@ fn refresh_para_ids_in_run(
     seen: &mut HashSet<String>,
 ) {
     for child in &mut run.children {
-        if let RunChild::CommentStart(c) = child {
-            refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen);
+        match child {
+            RunChild::CommentStart(c) => {
+                refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen)
+            }
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &mut reference.content {
+                    refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen);
+                }
+            }
+            _ => {}
         }
     }
 }
diff --git a/docx-core/src/documents/paragraph_id.rs b/docx-core/src/documents/paragraph_id.rs
index 051e311..30db81a 100644
--- a/docx-core/src/documents/paragraph_id.rs
+++ b/docx-core/src/documents/paragraph_id.rs
@@ -1,23 +1,44 @@
 #[cfg(not(test))]
-use std::cell::Cell;
+use std::cell::{Cell, RefCell};
+use std::collections::HashSet;
 #[cfg(not(test))]
 thread_local! {
     // Resetting a process-global counter lets one document reuse IDs while
     // another thread is still creating paragraphs. Keep reset scope local;
     // build-time normalization handles IDs from paragraphs merged across threads.
     static PARA_ID: Cell<u32> = const { Cell::new(1) };
+
+    // IDs of the document being rendered. Paragraphs created while it is
+    // rendered (table of contents, empty cells, section ends) must avoid them.
+    static RESERVED: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
 }
 
 #[cfg(not(test))]
 pub fn generate_para_id() -> String {
-    let id = PARA_ID.with(|next| {
-        let id = next.get();
-        next.set(id.checked_add(1).expect("paragraph ID space exhausted"));
-        id
+    let id = RESERVED.with(|reserved| {
+        let reserved = reserved.borrow();
+        PARA_ID.with(|next| {
+            let mut id = next.get();
+            while reserved.contains(&id) {
+                id = id.checked_add(1).expect("paragraph ID space exhausted");
+            }
+            next.set(id.checked_add(1).expect("paragraph ID space exhausted"));
+            id
+        })
     });
     format!("{id:08x}")
 }
 
+/// Keeps the given IDs from being generated on this thread.
+#[cfg(not(test))]
+pub(crate) fn reserve_para_ids(ids: &HashSet<String>) {
+    RESERVED.set(
+        ids.iter()
+            .filter_map(|id| u32::from_str_radix(id, 16).ok())
+            .collect(),
+    );
+}
+
 #[cfg(not(test))]
 pub fn reset_para_id() {
     PARA_ID.set(1);
@@ -28,6 +49,11 @@ pub fn generate_para_id() -> String {
     "12345678".to_owned()
 }
 
+#[cfg(test)]
+pub(crate) fn reserve_para_ids(_ids: &HashSet<String>) {
+    // NOP
+}
+
 #[cfg(test)]
 pub fn reset_para_id() {
     // NOP
-- 
2.43.0


From c93bb6514f6cecb4a4fe2819070a1bf25880b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:54 +0000
Subject: [PATCH 10/43] fix: write HYPERLINK field instructions

---
 .../documents/elements/delete_instr_text.rs   |  2 +-
 .../src/documents/elements/instr_hyperlink.rs | 21 ++++++++++++++-----
 .../src/documents/elements/instr_text.rs      |  2 +-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/elements/delete_instr_text.rs b/docx-core/src/documents/elements/delete_instr_text.rs
index 33e20da..873b20f 100644
--- a/docx-core/src/documents/elements/delete_instr_text.rs
+++ b/docx-core/src/documents/elements/delete_instr_text.rs
@@ -25,7 +25,7 @@ impl BuildXML for DeleteInstrText {
                 DeleteInstrText::TOC(toc) => b.add_child(toc),
                 DeleteInstrText::TC(tc) => b.add_child(tc),
                 DeleteInstrText::PAGEREF(page_ref) => b.add_child(page_ref),
-                DeleteInstrText::HYPERLINK(_link) => todo!(),
+                DeleteInstrText::HYPERLINK(link) => b.add_child(link),
                 DeleteInstrText::Unsupported(s) => b.plain_text(s),
             })?
             .close()?
diff --git a/docx-core/src/documents/elements/instr_hyperlink.rs b/docx-core/src/documents/elements/instr_hyperlink.rs
index 9faf170..4713124 100644
--- a/docx-core/src/documents/elements/instr_hyperlink.rs
+++ b/docx-core/src/documents/elements/instr_hyperlink.rs
@@ -1,4 +1,8 @@
 use serde::Serialize;
+use std::io::Write;
+
+use crate::documents::BuildXML;
+use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_HYPERLINKHYPERLINK_topic_ID0EFYG1.html
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -20,11 +24,18 @@ impl InstrHyperlink {
     }
 }
 
-// impl BuildXML for instrHyperlink {
-//     fn build(&self) -> Vec<u8> {
-// TODO:
-//     }
-// }
+impl BuildXML for InstrHyperlink {
+    fn build_to<W: Write>(
+        &self,
+        stream: crate::xml::writer::EventWriter<W>,
+    ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        XMLBuilder::from(stream)
+            .plain_text("HYPERLINK ")?
+            .apply_if(self.anchor, |b| b.plain_text("\\l "))?
+            .plain_text(&format!("\"{}\"", self.target))?
+            .into_inner()
+    }
+}
 
 impl std::str::FromStr for InstrHyperlink {
     type Err = ();
diff --git a/docx-core/src/documents/elements/instr_text.rs b/docx-core/src/documents/elements/instr_text.rs
index e063933..84ac94c 100644
--- a/docx-core/src/documents/elements/instr_text.rs
+++ b/docx-core/src/documents/elements/instr_text.rs
@@ -29,7 +29,7 @@ impl BuildXML for Box<InstrText> {
                 InstrText::PAGEREF(page_ref) => b.add_child(page_ref),
                 InstrText::PAGE(page) => b.add_child(page),
                 InstrText::NUMPAGES(page) => b.add_child(page),
-                InstrText::HYPERLINK(_link) => todo!(),
+                InstrText::HYPERLINK(link) => b.add_child(link),
                 InstrText::Unsupported(s) => b.plain_text(s),
             })?
             .close()?
-- 
2.43.0


From 2436bd0e73f8891addedb57797b98423d2ac0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:16 +0000
Subject: [PATCH 11/43] fix: report an XML part that fails or ends inside an
 element

---
 docx-core/src/documents/content_types.rs  |  8 ++---
 docx-core/src/reader/custom_properties.rs |  1 +
 docx-core/src/reader/ignore.rs            | 13 ++++----
 docx-core/src/reader/numberings.rs        |  2 ++
 docx-core/src/reader/xml_parser.rs        | 36 +++++++++++++++++++++--
 5 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index b4e309a..9eb9fee 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -205,16 +205,16 @@ impl FromXML for ContentTypes {
             match e {
                 Ok(XmlEvent::StartElement { attributes, .. }) => {
                     if depth == 1 {
-                        let namespace = attributes[0].value.clone();
-                        let path = attributes[1].value.clone();
-                        s = s.add_content(path, namespace);
+                        if let [namespace, path, ..] = &attributes[..] {
+                            s = s.add_content(path.value.clone(), namespace.value.clone());
+                        }
                     }
                     depth += 1;
                 }
                 Ok(XmlEvent::EndElement { .. }) => {
                     depth -= 1;
                 }
-                Err(_) => {}
+                Err(_) => return Err(ReaderError::XMLReadError),
                 _ => {}
             }
         }
diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index dfc71f2..d3f1928 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -37,6 +37,7 @@ impl FromXML for CustomProps {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/ignore.rs b/docx-core/src/reader/ignore.rs
index 727addf..12ec11a 100644
--- a/docx-core/src/reader/ignore.rs
+++ b/docx-core/src/reader/ignore.rs
@@ -6,12 +6,15 @@ use super::*;
 pub(crate) fn ignore_element<R: Read>(el: XMLElement, ignore: XMLElement, r: &mut EventReader<R>) {
     if ignore == el {
         loop {
-            let e = r.next_event();
-            if let Ok(XmlEvent::EndElement { name, .. }) = e {
-                let e = XMLElement::from_str(&name.local_name).unwrap();
-                if e == ignore {
-                    break;
+            match r.next_event() {
+                Ok(XmlEvent::EndElement { name, .. }) => {
+                    let e = XMLElement::from_str(&name.local_name).unwrap();
+                    if e == ignore {
+                        break;
+                    }
                 }
+                Err(_) => break,
+                _ => {}
             }
         }
     }
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index 5034add..cb9e5bd 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -54,6 +54,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
@@ -100,6 +101,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 8ef0eda..4d34894 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -62,6 +62,8 @@ pub struct EventReader<R: Read> {
     buf: Vec<u8>,
     pending: VecDeque<XmlEvent>,
     finished: bool,
+    depth: usize,
+    failure: Option<quick_xml::Error>,
 }
 
 impl<R: Read> EventReader<R> {
@@ -78,11 +80,41 @@ impl<R: Read> EventReader<R> {
             buf: Vec::new(),
             pending: VecDeque::new(),
             finished: false,
+            depth: 0,
+            failure: None,
         }
     }
 
+    /// Returns the next event.
+    ///
+    /// An input which ends inside an element is an error. After an error or the
+    /// end of the document every further call fails, so that a failure cannot be
+    /// skipped by an element reader and no reader waits for a missing end tag.
     pub fn next_event(&mut self) -> Result<XmlEvent, quick_xml::Error> {
-        self.read_next()
+        if let Some(error) = &self.failure {
+            return Err(error.clone());
+        }
+        let result = self.read_next().and_then(|event| {
+            match &event {
+                XmlEvent::StartElement { .. } => self.depth += 1,
+                XmlEvent::EndElement { .. } => self.depth = self.depth.saturating_sub(1),
+                XmlEvent::EndDocument => {
+                    let error = quick_xml::Error::from(std::io::Error::from(
+                        std::io::ErrorKind::UnexpectedEof,
+                    ));
+                    if self.depth > 0 {
+                        return Err(error);
+                    }
+                    self.failure = Some(error);
+                }
+                _ => {}
+            }
+            Ok(event)
+        });
+        if let Err(error) = &result {
+            self.failure = Some(error.clone());
+        }
+        result
     }
 
     fn read_next(&mut self) -> Result<XmlEvent, quick_xml::Error> {
@@ -216,7 +248,7 @@ impl<R: Read> Iterator for EventReader<R> {
         if self.finished {
             return None;
         }
-        match self.read_next() {
+        match self.next_event() {
             Ok(XmlEvent::EndDocument) => {
                 self.finished = true;
                 Some(Ok(XmlEvent::EndDocument))
-- 
2.43.0


From 2f4ea7092b9889bf186abf207d0515384a2bfbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:59 +0000
Subject: [PATCH 12/43] fix: report missing attributes instead of panicking

---
 docx-core/src/reader/attributes/val.rs     | 10 +++++++++-
 docx-core/src/reader/attributes/width.rs   |  2 +-
 docx-core/src/reader/comment.rs            |  2 +-
 docx-core/src/reader/comment_extended.rs   |  2 +-
 docx-core/src/reader/level.rs              | 14 +++++++-------
 docx-core/src/reader/level_override.rs     |  4 ++--
 docx-core/src/reader/numbering_property.rs |  4 ++--
 docx-core/src/reader/numberings.rs         |  6 +++---
 docx-core/src/reader/paragraph_property.rs |  6 +++---
 docx-core/src/reader/run_property.rs       | 12 ++++++++----
 docx-core/src/reader/style.rs              |  2 +-
 docx-core/src/reader/table.rs              |  2 +-
 docx-core/src/reader/table_property.rs     |  2 +-
 13 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/docx-core/src/reader/attributes/val.rs b/docx-core/src/reader/attributes/val.rs
index 0f8dc21..468584b 100644
--- a/docx-core/src/reader/attributes/val.rs
+++ b/docx-core/src/reader/attributes/val.rs
@@ -14,10 +14,18 @@ pub fn read_val(attrs: &[OwnedAttribute]) -> Option<String> {
     None
 }
 
+/// Returns the value of an element which is defined by its first attribute.
+pub fn first_value(attrs: &[OwnedAttribute]) -> Result<&str, ReaderError> {
+    attrs
+        .first()
+        .map(|a| a.value.as_str())
+        .ok_or(ReaderError::XMLReadError)
+}
+
 pub fn value_to_dax(v: &str) -> Result<i32, ReaderError> {
     if v.ends_with("pt") {
         let v = f64::from_str(&v.replace("pt", ""))? as i32;
-        Ok(v * 20)
+        Ok(v.saturating_mul(20))
     } else {
         Ok(f64::from_str(v)? as i32)
     }
diff --git a/docx-core/src/reader/attributes/width.rs b/docx-core/src/reader/attributes/width.rs
index 2a01be5..b33f87f 100644
--- a/docx-core/src/reader/attributes/width.rs
+++ b/docx-core/src/reader/attributes/width.rs
@@ -15,7 +15,7 @@ pub fn read_width(attrs: &[OwnedAttribute]) -> Result<(isize, WidthType), Reader
             width_type = WidthType::from_str(&a.value)?;
         } else if local_name == "w" {
             let v = a.value.replace('%', "");
-            w = f64::from_str(&v).expect("should read width.") as isize;
+            w = f64::from_str(&v)? as isize;
         }
     }
     Ok((w, width_type))
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index e42ef42..df47f15 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -9,7 +9,7 @@ impl ElementReader for Comment {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let id = usize::from_str(&read(attrs, "id").expect("should comment id exists."))?;
+        let id = usize::from_str(&read(attrs, "id").ok_or(ReaderError::XMLReadError)?)?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
             comment = comment.author(escape::escape(author.as_str()));
diff --git a/docx-core/src/reader/comment_extended.rs b/docx-core/src/reader/comment_extended.rs
index 02a2ceb..6c81721 100644
--- a/docx-core/src/reader/comment_extended.rs
+++ b/docx-core/src/reader/comment_extended.rs
@@ -7,7 +7,7 @@ impl ElementReader for CommentExtended {
         _r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let para_id = read(attrs, "paraId").expect("should comment id exists.");
+        let para_id = read(attrs, "paraId").ok_or(ReaderError::XMLReadError)?;
         let mut comment_extended = CommentExtended::new(para_id);
         if let Some(done) = read(attrs, "done") {
             if !is_false(&done) {
diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index 4e2fd38..9748167 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -36,7 +36,7 @@ impl ElementReader for Level {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::ParagraphStyle => {
-                            let id = attributes[0].value.clone();
+                            let id = first_value(&attributes)?.to_owned();
                             style_id = Some(id);
                         }
                         XMLElement::ParagraphProperty => {
@@ -52,27 +52,27 @@ impl ElementReader for Level {
                             continue;
                         }
                         XMLElement::Start => {
-                            start = Start::new(usize::from_str(&attributes[0].value)?);
+                            start = Start::new(usize::from_str(first_value(&attributes)?)?);
                         }
                         XMLElement::NumberFormat => {
-                            num_fmt = NumberFormat::new(attributes[0].value.clone());
+                            num_fmt = NumberFormat::new(first_value(&attributes)?);
                         }
                         XMLElement::Suffix => {
-                            suffix = LevelSuffixType::from_str(&attributes[0].value)?;
+                            suffix = LevelSuffixType::from_str(first_value(&attributes)?)?;
                         }
                         XMLElement::IsLgl => {
                             is_lgl = Some(IsLgl::new());
                         }
                         XMLElement::LevelText => {
-                            level_text = LevelText::new(attributes[0].value.clone());
+                            level_text = LevelText::new(first_value(&attributes)?);
                         }
                         XMLElement::LevelRestart => {
-                            if let Ok(v) = u32::from_str(&attributes[0].value) {
+                            if let Ok(v) = u32::from_str(first_value(&attributes)?) {
                                 level_restart = Some(LevelRestart::new(v));
                             }
                         }
                         XMLElement::LevelJustification => {
-                            jc = LevelJc::new(attributes[0].value.clone());
+                            jc = LevelJc::new(first_value(&attributes)?);
                         }
                         XMLElement::Indent => {
                             let i = read_indent(&attributes)?;
diff --git a/docx-core/src/reader/level_override.rs b/docx-core/src/reader/level_override.rs
index 4cfc5eb..a04291b 100644
--- a/docx-core/src/reader/level_override.rs
+++ b/docx-core/src/reader/level_override.rs
@@ -8,7 +8,7 @@ impl ElementReader for LevelOverride {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        if let Ok(level) = usize::from_str(&attrs[0].value) {
+        if let Ok(level) = usize::from_str(first_value(attrs)?) {
             let mut o = LevelOverride::new(level);
             loop {
                 let e = r.next_event();
@@ -19,7 +19,7 @@ impl ElementReader for LevelOverride {
                         let e = XMLElement::from_str(&name.local_name).unwrap();
                         match e {
                             XMLElement::StartOverride => {
-                                if let Ok(val) = usize::from_str(&attributes[0].value) {
+                                if let Ok(val) = usize::from_str(first_value(&attributes)?) {
                                     o = o.start(val);
                                 }
                                 continue;
diff --git a/docx-core/src/reader/numbering_property.rs b/docx-core/src/reader/numbering_property.rs
index f1678bf..c47c6cf 100644
--- a/docx-core/src/reader/numbering_property.rs
+++ b/docx-core/src/reader/numbering_property.rs
@@ -19,11 +19,11 @@ impl ElementReader for NumberingProperty {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::IndentLevel => {
-                            level = Some(usize::from_str(&attributes[0].value)?);
+                            level = Some(usize::from_str(first_value(&attributes)?)?);
                             continue;
                         }
                         XMLElement::NumberingId => {
-                            id = Some(usize::from_str(&attributes[0].value)?);
+                            id = Some(usize::from_str(first_value(&attributes)?)?);
                             continue;
                         }
                         _ => {}
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index cb9e5bd..e8a9ba7 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -38,11 +38,11 @@ impl FromXML for Numberings {
                                                 abs_num = abs_num.add_level(l);
                                             }
                                             XMLElement::StyleLink => {
-                                                abs_num = abs_num.style_link(&attributes[0].value)
+                                                abs_num = abs_num.style_link(first_value(&attributes)?)
                                             }
                                             XMLElement::NumStyleLink => {
                                                 abs_num =
-                                                    abs_num.num_style_link(&attributes[0].value)
+                                                    abs_num.num_style_link(first_value(&attributes)?)
                                             }
                                             _ => {}
                                         }
@@ -80,7 +80,7 @@ impl FromXML for Numberings {
                                         let e = XMLElement::from_str(&name.local_name).unwrap();
                                         match e {
                                             XMLElement::AbstractNumberingId => {
-                                                abs_num_id = usize::from_str(&attributes[0].value)?
+                                                abs_num_id = usize::from_str(first_value(&attributes)?)?
                                             }
                                             XMLElement::LvlOverride => {
                                                 if let Ok(o) =
diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 361450c..719e51d 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -42,13 +42,13 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = AlignmentType::from_str(&attributes[0].value) {
+                            if let Ok(v) = AlignmentType::from_str(first_value(&attributes)?) {
                                 p = p.align(v);
                             }
                             continue;
                         }
                         XMLElement::TextAlignment => {
-                            if let Ok(v) = TextAlignmentType::from_str(&attributes[0].value) {
+                            if let Ok(v) = TextAlignmentType::from_str(first_value(&attributes)?) {
                                 p = p.text_alignment(v);
                             }
                             continue;
@@ -62,7 +62,7 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::ParagraphStyle => {
-                            p = p.style(&attributes[0].value);
+                            p = p.style(first_value(&attributes)?);
                             continue;
                         }
                         XMLElement::RunProperty => {
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 187f50d..7e76830 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -107,7 +107,7 @@ impl ElementReader for RunProperty {
                                 rp = rp.ptab(v)
                             }
                         }
-                        XMLElement::Highlight => rp = rp.highlight(attributes[0].value.clone()),
+                        XMLElement::Highlight => rp = rp.highlight(first_value(&attributes)?),
                         XMLElement::Strike => {
                             if !read_bool(&attributes) {
                                 rp.strike = Some(Strike::new().disable());
@@ -123,13 +123,13 @@ impl ElementReader for RunProperty {
                             rp = rp.dstrike();
                         }
                         XMLElement::VertAlign => {
-                            if let Ok(v) = VertAlignType::from_str(&attributes[0].value) {
+                            if let Ok(v) = VertAlignType::from_str(first_value(&attributes)?) {
                                 rp = rp.vert_align(v)
                             }
                         }
                         XMLElement::Color => rp = read_color(rp, &attributes),
                         XMLElement::Size => {
-                            rp = rp.size(f64::from_str(&attributes[0].value)? as usize)
+                            rp = rp.size(f64::from_str(first_value(&attributes)?)? as usize)
                         }
                         XMLElement::Spacing => {
                             if let Some(v) = read_val(&attributes) {
@@ -152,7 +152,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.fonts(f);
                             }
                         }
-                        XMLElement::Underline => rp = rp.underline(attributes[0].value.clone()),
+                        XMLElement::Underline => {
+                            if let Ok(v) = first_value(&attributes) {
+                                rp = rp.underline(v)
+                            }
+                        }
                         XMLElement::Italic => {
                             if !read_bool(&attributes) {
                                 rp = rp.disable_italic();
diff --git a/docx-core/src/reader/style.rs b/docx-core/src/reader/style.rs
index 9d611ab..0a5ecfe 100644
--- a/docx-core/src/reader/style.rs
+++ b/docx-core/src/reader/style.rs
@@ -30,7 +30,7 @@ impl ElementReader for Style {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::Name => {
-                            style = style.name(attributes[0].value.clone());
+                            style = style.name(first_value(&attributes)?);
                             continue;
                         }
                         XMLElement::BasedOn => {
diff --git a/docx-core/src/reader/table.rs b/docx-core/src/reader/table.rs
index 5c0e511..9b85f76 100644
--- a/docx-core/src/reader/table.rs
+++ b/docx-core/src/reader/table.rs
@@ -35,7 +35,7 @@ impl ElementReader for Table {
                             }
                         }
                         XMLElement::Justification => {
-                            t = t.align(TableAlignmentType::from_str(&attributes[0].value)?);
+                            t = t.align(TableAlignmentType::from_str(first_value(&attributes)?)?);
                         }
                         XMLElement::TableIndent => {
                             let (w, _) = read_width(&attributes)?;
diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index aeca707..b6f4b08 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -37,7 +37,7 @@ impl ElementReader for TableProperty {
                             }
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = TableAlignmentType::from_str(&attributes[0].value) {
+                            if let Ok(v) = TableAlignmentType::from_str(first_value(&attributes)?) {
                                 tp = tp.align(v);
                             }
                         }
-- 
2.43.0


From b96bcac2967157be7cf6d05d5f7ad6720cd57d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:56 +0000
Subject: [PATCH 13/43] fix: do not panic on images and custom XML that cannot
 be converted

---
 docx-core/src/documents/mod.rs | 9 ++++++---
 docx-core/src/xml_json/mod.rs  | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 99aa03a..9535d0d 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -339,11 +339,14 @@ impl Docx {
         if let Ok(dimg) = image::load_from_memory(&buf) {
             let mut png = std::io::Cursor::new(vec![]);
             // For now only png supported
-            dimg.write_to(&mut png, image::ImageFormat::Png)
-                .expect("Unable to write dynamic image");
+            let preview = match dimg.write_to(&mut png, image::ImageFormat::Png) {
+                Ok(()) => png.into_inner(),
+                // Not every decodable image can be encoded as png.
+                Err(_) => Vec::new(),
+            };
 
             self.images
-                .push((id.into(), path, Image(buf), Png(png.into_inner())));
+                .push((id.into(), path, Image(buf), Png(preview)));
         }
         self
     }
diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index c7558e8..33174f9 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -212,7 +212,10 @@ impl XmlDocument {
         R: Read,
     {
         let parser = EventReader::new(source);
-        let mut events: Vec<XmlEvent> = parser.into_iter().map(|x| x.unwrap()).collect();
+        let mut events = parser
+            .into_iter()
+            .collect::<Result<Vec<XmlEvent>, _>>()
+            .map_err(|e| ParseXmlError(e.to_string()))?;
         events.reverse();
 
         parse(events, None, Vec::new(), trim, Namespace::empty())
-- 
2.43.0


From 26fd8a2c931a2411333f60aa252400ac3883a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:24 +0000
Subject: [PATCH 14/43] fix: report parts that cannot be read back instead of
 dropping them

---
 docx-core/src/reader/header_or_footer_rels.rs |   4 +-
 docx-core/src/reader/read_docx.rs             | 123 ++++++++----------
 docx-core/src/reader/read_zip.rs              |  23 +++-
 3 files changed, 80 insertions(+), 70 deletions(-)

diff --git a/docx-core/src/reader/header_or_footer_rels.rs b/docx-core/src/reader/header_or_footer_rels.rs
index 1c2dc31..fdef69b 100644
--- a/docx-core/src/reader/header_or_footer_rels.rs
+++ b/docx-core/src/reader/header_or_footer_rels.rs
@@ -45,7 +45,9 @@ pub fn read_header_or_footer_rels(
     let p = p
         .to_str()
         .ok_or(ReaderError::HeaderOrFooterRelsNotFoundError)?;
-    let data = read_zip(archive, p)?;
+    let Some(data) = read_optional_zip(archive, p)? else {
+        return Ok(ReadHeaderOrFooterRels::default());
+    };
     let rels = read_rels_xml(&data[..], dir)?;
     Ok(ReadHeaderOrFooterRels { rels })
 }
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 24ef048..dfdce49 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -7,62 +7,51 @@ use zip::ZipArchive;
 fn read_headers(
     rels: &ReadDocumentRels,
     archive: &mut ZipArchive<Cursor<&[u8]>>,
-) -> HashMap<RId, (Header, ReadHeaderOrFooterRels)> {
-    let header_paths = rels.target_paths(HEADER_TYPE);
-    let headers: HashMap<RId, (Header, ReadHeaderOrFooterRels)> = header_paths
-        .into_iter()
-        .flatten()
-        .filter_map(|(rid, path, ..)| {
-            let data = read_zip(archive, path.to_str().expect("should have header path."));
-            if let Ok(d) = data {
-                if let Ok(h) = Header::from_xml(&d[..]) {
-                    let rels = read_header_or_footer_rels(archive, path).unwrap_or_default();
-                    return Some((rid.clone(), (h, rels)));
-                }
+) -> Result<HashMap<RId, (Header, ReadHeaderOrFooterRels)>, ReaderError> {
+    let mut headers = HashMap::new();
+    for (rid, path, ..) in rels.target_paths(HEADER_TYPE).into_iter().flatten() {
+        let name = path.to_str().expect("should have header path.");
+        if let Some(d) = read_optional_zip(archive, name)? {
+            if let Ok(h) = Header::from_xml(&d[..]) {
+                let rels = read_header_or_footer_rels(archive, path)?;
+                headers.insert(rid.clone(), (h, rels));
             }
-            None
-        })
-        .collect();
-    headers
+        }
+    }
+    Ok(headers)
 }
 
 fn read_footers(
     rels: &ReadDocumentRels,
     archive: &mut ZipArchive<Cursor<&[u8]>>,
-) -> HashMap<RId, (Footer, ReadHeaderOrFooterRels)> {
-    let footer_paths = rels.target_paths(FOOTER_TYPE);
-    let footers: HashMap<RId, (Footer, ReadHeaderOrFooterRels)> = footer_paths
-        .into_iter()
-        .flatten()
-        .filter_map(|(rid, path, ..)| {
-            let data = read_zip(archive, path.to_str().expect("should have footer path."));
-            if let Ok(d) = data {
-                if let Ok(h) = Footer::from_xml(&d[..]) {
-                    let rels = read_header_or_footer_rels(archive, path).unwrap_or_default();
-                    return Some((rid.clone(), (h, rels)));
-                }
+) -> Result<HashMap<RId, (Footer, ReadHeaderOrFooterRels)>, ReaderError> {
+    let mut footers = HashMap::new();
+    for (rid, path, ..) in rels.target_paths(FOOTER_TYPE).into_iter().flatten() {
+        let name = path.to_str().expect("should have footer path.");
+        if let Some(d) = read_optional_zip(archive, name)? {
+            if let Ok(h) = Footer::from_xml(&d[..]) {
+                let rels = read_header_or_footer_rels(archive, path)?;
+                footers.insert(rid.clone(), (h, rels));
             }
-            None
-        })
-        .collect();
-    footers
+        }
+    }
+    Ok(footers)
 }
 
-fn read_themes(rels: &ReadDocumentRels, archive: &mut ZipArchive<Cursor<&[u8]>>) -> Vec<Theme> {
-    let theme_paths = rels.target_paths(THEME_TYPE);
-    theme_paths
-        .into_iter()
-        .flatten()
-        .filter_map(|(_rid, path, ..)| {
-            let data = read_zip(archive, path.to_str().expect("should have footer path."));
-            if let Ok(d) = data {
-                if let Ok(h) = Theme::from_xml(&d[..]) {
-                    return Some(h);
-                }
+fn read_themes(
+    rels: &ReadDocumentRels,
+    archive: &mut ZipArchive<Cursor<&[u8]>>,
+) -> Result<Vec<Theme>, ReaderError> {
+    let mut themes = vec![];
+    for (_rid, path, ..) in rels.target_paths(THEME_TYPE).into_iter().flatten() {
+        let name = path.to_str().expect("should have theme path.");
+        if let Some(d) = read_optional_zip(archive, name)? {
+            if let Ok(h) = Theme::from_xml(&d[..]) {
+                themes.push(h);
             }
-            None
-        })
-        .collect()
+        }
+    }
+    Ok(themes)
 }
 
 /// Controls optional work performed while reading a DOCX package.
@@ -127,8 +116,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     };
 
     if let Some(custom_props) = rels.find_target(CUSTOM_PROPERTIES_TYPE) {
-        let data = read_zip(&mut archive, &custom_props.2);
-        if let Ok(data) = data {
+        if let Some(data) = read_optional_zip(&mut archive, &custom_props.2)? {
             if let Ok(custom) = CustomProps::from_xml(&data[..]) {
                 docx.doc_props.custom = custom;
             }
@@ -137,22 +125,22 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 
     let rels = read_document_rels(&mut archive, &document_path)?;
 
-    let headers = read_headers(&rels, &mut archive);
-    let footers = read_footers(&rels, &mut archive);
+    let headers = read_headers(&rels, &mut archive)?;
+    let footers = read_footers(&rels, &mut archive)?;
 
-    docx.themes = read_themes(&rels, &mut archive);
+    docx.themes = read_themes(&rels, &mut archive)?;
 
     // Read commentsExtended
     let comments_extended_path = rels.target_paths(COMMENTS_EXTENDED_TYPE);
     let comments_extended = if let Some(comments_extended_path) = comments_extended_path {
         if let Some((_, comments_extended_path, ..)) = comments_extended_path.first() {
-            let data = read_zip(
+            let data = read_optional_zip(
                 &mut archive,
                 comments_extended_path
                     .to_str()
                     .expect("should have comments extended."),
-            );
-            if let Ok(data) = data {
+            )?;
+            if let Some(data) = data {
                 CommentsExtended::from_xml(&data[..])?
             } else {
                 CommentsExtended::default()
@@ -168,11 +156,11 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     let comments_path = rels.target_paths(COMMENTS_TYPE);
     let comments = if let Some(paths) = comments_path {
         if let Some((_, comments_path, ..)) = paths.first() {
-            let data = read_zip(
+            let data = read_optional_zip(
                 &mut archive,
                 comments_path.to_str().expect("should have comments."),
-            );
-            if let Ok(data) = data {
+            )?;
+            if let Some(data) = data {
                 let mut comments = Comments::from_xml(&data[..])?.into_inner();
                 if !comments.is_empty() && !comments_extended.children.is_empty() {
                     let mut comment_id_by_paragraph: HashMap<String, usize> = HashMap::new();
@@ -238,7 +226,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
             docx.content_type = docx.content_type.add_header();
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, &mut archive, options.generate_image_previews)?;
         }
     }
     if let Some(ref h) = docx
@@ -256,7 +244,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
             docx.content_type = docx.content_type.add_header();
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, &mut archive, options.generate_image_previews)?;
         }
     }
     if let Some(ref h) = docx.document.section_property.even_header_reference.clone() {
@@ -268,7 +256,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, &mut archive, options.generate_image_previews)?;
         }
     }
 
@@ -282,7 +270,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, &mut archive, options.generate_image_previews)?;
         }
     }
 
@@ -302,7 +290,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, &mut archive, options.generate_image_previews)?;
         }
     }
     if let Some(ref f) = docx.document.section_property.even_footer_reference.clone() {
@@ -314,7 +302,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 
             // Read media
             let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+            docx = add_images(docx, media, &mut archive, options.generate_image_previews)?;
         }
     }
 
@@ -381,7 +369,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     }
     // Read media
     let media = rels.target_paths(IMAGE_TYPE);
-    docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+    docx = add_images(docx, media, &mut archive, options.generate_image_previews)?;
 
     // Read hyperlinks
     let links = rels.target_paths(HYPERLINK_TYPE);
@@ -405,11 +393,12 @@ fn add_images(
     media: Option<&std::collections::BTreeSet<(RId, PathBuf, Option<String>)>>,
     archive: &mut ZipArchive<Cursor<&[u8]>>,
     generate_previews: bool,
-) -> Docx {
+) -> Result<Docx, ReaderError> {
     // Read media
     if let Some(paths) = media {
         for (id, media, ..) in paths {
-            if let Ok(data) = read_zip(archive, media.to_str().expect("should have media")) {
+            let name = media.to_str().expect("should have media");
+            if let Some(data) = read_optional_zip(archive, name)? {
                 docx = docx.add_image_with_options(
                     id.clone(),
                     media.to_str().unwrap().to_string(),
@@ -419,7 +408,7 @@ fn add_images(
             }
         }
     }
-    docx
+    Ok(docx)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/reader/read_zip.rs b/docx-core/src/reader/read_zip.rs
index df37556..99c41d4 100644
--- a/docx-core/src/reader/read_zip.rs
+++ b/docx-core/src/reader/read_zip.rs
@@ -2,6 +2,8 @@ use std::io::{Cursor, Read};
 
 use super::ReaderError;
 
+const MAX_PREALLOCATION: usize = 1 << 20;
+
 pub fn read_zip(
     archive: &mut zip::read::ZipArchive<Cursor<&[u8]>>,
     name: &str,
@@ -15,9 +17,11 @@ pub fn read_zip(
         name.trim_start_matches('/')
     };
     let mut xml = archive.by_name(path)?;
-    let capacity = usize::try_from(xml.size()).unwrap_or(0);
+    // The declared size is not trusted, a damaged archive can claim anything.
+    let capacity = usize::try_from(xml.size()).unwrap_or(0).min(MAX_PREALLOCATION);
     let mut data = Vec::with_capacity(capacity);
-    xml.read_to_end(&mut data).unwrap();
+    xml.read_to_end(&mut data)
+        .map_err(zip::result::ZipError::from)?;
     // Remove BOM
     if data.starts_with(&[0xef, 0xbb, 0xbf]) {
         data.copy_within(3.., 0);
@@ -25,3 +29,18 @@ pub fn read_zip(
     }
     Ok(data)
 }
+
+/// Reads a part which may be absent. A part which is present but cannot be
+/// read back is an error.
+pub(crate) fn read_optional_zip(
+    archive: &mut zip::read::ZipArchive<Cursor<&[u8]>>,
+    name: &str,
+) -> Result<Option<Vec<u8>>, ReaderError> {
+    match read_zip(archive, name) {
+        Ok(data) => Ok(Some(data)),
+        Err(ReaderError::ZipError(
+            zip::result::ZipError::FileNotFound | zip::result::ZipError::UnsupportedArchive(_),
+        )) => Ok(None),
+        Err(e) => Err(e),
+    }
+}
-- 
2.43.0


From 2a12b1da44d29abcb0b1c42c6b1e9f4f6a416edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:53 +0000
Subject: [PATCH 15/43] fix: find part names of flat packages without
 overrunning them

---
 docx-core/src/reader/read_xml.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 8bb9871..9ac5f8d 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -228,7 +228,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             // Extract name attribute (handle both standard and double-quoted patterns)
             let name = if let Some(name_start) = part_xml.find("pkg:name=\"\"") {
                 // Handle double-quoted pattern: pkg:name=""value""
-                let name_start = name_start + 12; // 12 = "pkg:name=\"\"".len()
+                let name_start = name_start + 11; // 11 = "pkg:name=\"\"".len()
                 if let Some(name_end) = part_xml[name_start..].find("\"\"") {
                     decode_html_entities(&part_xml[name_start..name_start + name_end])
                 } else {
@@ -255,7 +255,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             // Extract contentType attribute (handle both standard and double-quoted patterns)
             let content_type = if let Some(type_start) = part_xml.find("pkg:contentType=\"\"") {
                 // Handle double-quoted pattern: pkg:contentType=""value""
-                let type_start = type_start + 19; // 19 = "pkg:contentType=\"\"".len()
+                let type_start = type_start + 18; // 18 = "pkg:contentType=\"\"".len()
                 if let Some(type_end) = part_xml[type_start..].find("\"\"") {
                     decode_html_entities(&part_xml[type_start..type_start + type_end])
                 } else {
@@ -315,8 +315,8 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
 
             start_idx = part_end;
         } else {
-            // No closing tag found, move to next position to avoid infinite loop
-            start_idx = part_start + 1;
+            // No closing tag is left for this or any later part
+            break;
         }
     }
 
-- 
2.43.0


From 49bbcd20685346c0f2d852afaff115eaa6f9606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:20:20 +0000
Subject: [PATCH 16/43] fix: escape run text when it is written

Text read from a file was kept as is while text given by the caller was
escaped up front, so a document that was opened and saved again wrote
'<' and '&' unescaped. Text is now kept as given and escaped on write,
and text read from a file is no longer decoded a second time.
---
 docx-core/src/documents/elements/delete_text.rs | 11 ++---------
 docx-core/src/documents/elements/run.rs         | 15 ---------------
 docx-core/src/documents/elements/text.rs        | 11 ++---------
 docx-core/src/escape/mod.rs                     |  1 +
 docx-core/src/reader/run.rs                     |  9 ++++-----
 5 files changed, 9 insertions(+), 38 deletions(-)

diff --git a/docx-core/src/documents/elements/delete_text.rs b/docx-core/src/documents/elements/delete_text.rs
index befcafe..f5f7f73 100644
--- a/docx-core/src/documents/elements/delete_text.rs
+++ b/docx-core/src/documents/elements/delete_text.rs
@@ -2,7 +2,7 @@ use serde::{Deserialize, Serialize};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, Serialize, PartialEq)]
@@ -14,13 +14,6 @@ pub struct DeleteText {
 
 impl DeleteText {
     pub fn new(text: impl Into<String>) -> DeleteText {
-        DeleteText {
-            text: escape_owned(text.into()),
-            preserve_space: true,
-        }
-    }
-
-    pub(crate) fn without_escape(text: impl Into<String>) -> DeleteText {
         DeleteText {
             text: text.into(),
             preserve_space: true,
@@ -34,7 +27,7 @@ impl BuildXML for DeleteText {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .delete_text(&self.text, true)?
+            .delete_text(&escape(&self.text), true)?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/run.rs b/docx-core/src/documents/elements/run.rs
index cebf03a..6df785c 100644
--- a/docx-core/src/documents/elements/run.rs
+++ b/docx-core/src/documents/elements/run.rs
@@ -169,13 +169,6 @@ impl Run {
         self
     }
 
-    pub(crate) fn add_text_without_escape(mut self, text: impl Into<String>) -> Run {
-        self.children.push(RunChild::Text(Text::without_escape(
-            text.into().replace('\n', ""),
-        )));
-        self
-    }
-
     pub fn add_delete_text(mut self, text: impl Into<String>) -> Run {
         self.children.push(RunChild::DeleteText(DeleteText::new(
             text.into().replace('\n', ""),
@@ -183,14 +176,6 @@ impl Run {
         self
     }
 
-    pub(crate) fn add_delete_text_without_escape(mut self, text: impl Into<String>) -> Run {
-        self.children
-            .push(RunChild::DeleteText(DeleteText::without_escape(
-                text.into().replace('\n', ""),
-            )));
-        self
-    }
-
     pub fn add_field_char(mut self, t: crate::types::FieldCharType, dirty: bool) -> Run {
         let mut f = FieldChar::new(t);
         if dirty {
diff --git a/docx-core/src/documents/elements/text.rs b/docx-core/src/documents/elements/text.rs
index 1d5b5dd..0568833 100644
--- a/docx-core/src/documents/elements/text.rs
+++ b/docx-core/src/documents/elements/text.rs
@@ -3,7 +3,7 @@ use serde::Deserialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, PartialEq)]
@@ -15,13 +15,6 @@ pub struct Text {
 
 impl Text {
     pub fn new(text: impl Into<String>) -> Text {
-        Text {
-            text: escape_owned(text.into()),
-            preserve_space: true,
-        }
-    }
-
-    pub(crate) fn without_escape(text: impl Into<String>) -> Text {
         Text {
             text: text.into(),
             preserve_space: true,
@@ -35,7 +28,7 @@ impl BuildXML for Text {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .text(&self.text, true)?
+            .text(&escape(&self.text), true)?
             .into_inner()
     }
 }
diff --git a/docx-core/src/escape/mod.rs b/docx-core/src/escape/mod.rs
index abe5431..e29efc4 100644
--- a/docx-core/src/escape/mod.rs
+++ b/docx-core/src/escape/mod.rs
@@ -32,6 +32,7 @@ pub(crate) fn escape_owned(text: String) -> String {
     }
 }
 
+#[cfg(test)]
 pub(crate) fn replace_escaped(text: &str) -> String {
     let mut decoded = String::with_capacity(text.len());
     let mut rest = text;
diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 0ff2425..6e54683 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -5,7 +5,6 @@ use std::str::FromStr;
 
 use super::Run;
 
-use crate::escape::replace_escaped;
 use crate::types::BreakType;
 use crate::{reader::*, FieldCharType};
 
@@ -156,19 +155,19 @@ impl ElementReader for Run {
                 }
                 Ok(XmlEvent::Characters(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text(c);
                     }
                     _ => {}
                 },
                 Ok(XmlEvent::Whitespace(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text(c);
                     }
                     _ => {}
                 },
-- 
2.43.0


From f59625c46da8b6dd9968fe7a24bc0406e497664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:00:17 +0000
Subject: [PATCH 17/43] fix: do not add a second Normal style when a document
 is saved again

---
 docx-core/src/documents/styles.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/styles.rs b/docx-core/src/documents/styles.rs
index 2eaa748..4ca909f 100644
--- a/docx-core/src/documents/styles.rs
+++ b/docx-core/src/documents/styles.rs
@@ -82,10 +82,15 @@ impl BuildXML for Styles {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         let normal = Style::new("Normal", StyleType::Paragraph).name("Normal");
+        // A document that was read back already has its own.
+        let has_normal = self
+            .styles
+            .iter()
+            .any(|style| style.style_id == normal.style_id || style.name == normal.name);
         XMLBuilder::from(stream)
             .open_styles()?
             .add_child(&self.doc_defaults)?
-            .add_child(&normal)?
+            .apply_if(!has_normal, |b| b.add_child(&normal))?
             .add_children(&self.styles)?
             .close()?
             .into_inner()
-- 
2.43.0


From 117219d18fcaba5a0ffbe12b907e66bb58128669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:00:17 +0000
Subject: [PATCH 18/43] fix: do not add the default list definition next to one
 with its ids

---
 docx-core/src/documents/numberings.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/numberings.rs b/docx-core/src/documents/numberings.rs
index 0b42420..7b3eeb6 100644
--- a/docx-core/src/documents/numberings.rs
+++ b/docx-core/src/documents/numberings.rs
@@ -34,12 +34,19 @@ impl BuildXML for Numberings {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // A document that was read back already has its own.
+        let has_default_abstract_num = self.abstract_nums.iter().any(|n| n.id == 1);
+        let has_default_numbering = self.numberings.iter().any(|n| n.id == 1);
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_numbering()?
-            .add_child(&create_default_numbering())?
+            .apply_if(!has_default_abstract_num, |b| {
+                b.add_child(&create_default_numbering())
+            })?
             .add_children(&self.abstract_nums)?
-            .add_child(&Numbering::new(1, 1))?
+            .apply_if(!has_default_numbering, |b| {
+                b.add_child(&Numbering::new(1, 1))
+            })?
             .add_children(&self.numberings)?
             .close()?
             .into_inner()
-- 
2.43.0


From 0a05ab45e9a69826eafd24bf2f86cbf63cc62bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:25 +0000
Subject: [PATCH 19/43] fix: read what a positional tab is relative to from its
 own attribute

---
 docx-core/src/reader/positional_tab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/reader/positional_tab.rs b/docx-core/src/reader/positional_tab.rs
index 9f9cf1e..a66831e 100644
--- a/docx-core/src/reader/positional_tab.rs
+++ b/docx-core/src/reader/positional_tab.rs
@@ -36,7 +36,7 @@ fn read_alignment(
 fn read_relative_to(attributes: &[OwnedAttribute]) -> Result<PositionalTabRelativeTo, ReaderError> {
     for a in attributes {
         let local_name = &a.name.local_name;
-        if local_name == "alignment" {
+        if local_name == "relativeTo" {
             let v = a.value.to_owned();
             if let Ok(t) = PositionalTabRelativeTo::from_str(&v) {
                 return Ok(t);
-- 
2.43.0


From 4dbe635c63914c52493f71a630d9e48136452102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:25 +0000
Subject: [PATCH 20/43] fix: read the space of a text border

---
 docx-core/src/reader/run_property.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 7e76830..b1cf249 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -179,6 +179,9 @@ impl ElementReader for RunProperty {
                                 if let Some(size) = attr.size {
                                     border = border.size(size as usize);
                                 };
+                                if let Some(space) = attr.space {
+                                    border = border.space(space as usize);
+                                };
                                 rp = rp.text_border(border);
                                 continue;
                             }
-- 
2.43.0


From e0f9a5602993c5ecd971f21c19c613cdbe1fba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:01:25 +0000
Subject: [PATCH 21/43] fix: write frame spacing under the attribute names of
 the format

---
 docx-core/src/xml_builder/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index f1aed6d..c65f7b6 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -647,10 +647,10 @@ impl<W: Write> XMLBuilder<W> {
             w = w.attr_display("w:y", y);
         }
         if let Some(h_space) = prop.h_space {
-            w = w.attr_display("w:h_space", h_space);
+            w = w.attr_display("w:hSpace", h_space);
         }
         if let Some(v_space) = prop.v_space {
-            w = w.attr_display("w:v_space", v_space);
+            w = w.attr_display("w:vSpace", v_space);
         }
         if let Some(width) = prop.w {
             w = w.attr_display("w:w", width);
-- 
2.43.0


From ec1d47d8dea3eaf213ba81833268bed449ffeb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:04:07 +0000
Subject: [PATCH 22/43] fix: do not add blank runs around comment ends whenever
 a document is saved again

---
 docx-core/src/documents/document_tree.rs   | 43 +++++++++++++++++++++-
 docx-core/src/documents/image_collector.rs | 30 ++++++++++++++-
 2 files changed, 70 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index e8e8d8b..aeb1804 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -35,8 +35,43 @@ pub(crate) trait DocumentTreeVisitor {
 
     /// Visits a hyperlink before its children are traversed.
     fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
+
+    /// Visits a list of runs and ranges before its members are traversed.
+    fn visit_inline<T: InlineChild>(&mut self, _children: &mut Vec<T>) {}
+}
+
+/// A member of a container in which runs and comment ranges are mixed.
+pub(crate) trait InlineChild {
+    fn as_run(&self) -> Option<&Run>;
+    fn is_comment_end(&self) -> bool;
+}
+
+macro_rules! inline_child {
+    ($($child: ident),*) => {
+        $(impl InlineChild for $child {
+            fn as_run(&self) -> Option<&Run> {
+                match self {
+                    $child::Run(run) => Some(run),
+                    _ => None,
+                }
+            }
+
+            fn is_comment_end(&self) -> bool {
+                matches!(self, $child::CommentEnd(_))
+            }
+        })*
+    };
 }
 
+inline_child!(
+    ParagraphChild,
+    InsertChild,
+    DeleteChild,
+    MoveFromChild,
+    MoveToChild,
+    StructuredDataTagChild
+);
+
 /// Traverses the main document body without crossing into header/footer parts.
 ///
 /// Header and footer relationships have their own scopes, so callers must walk
@@ -129,6 +164,7 @@ fn visit_table_of_contents(toc: &mut TableOfContents, visitor: &mut impl Documen
 }
 
 fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_inline(&mut tag.children);
     for child in &mut tag.children {
         match child {
             StructuredDataTagChild::Run(run) => visit_run(run, visitor),
@@ -151,9 +187,10 @@ fn visit_paragraph(paragraph: &mut Paragraph, visitor: &mut impl DocumentTreeVis
 }
 
 fn visit_paragraph_children(
-    children: &mut [ParagraphChild],
+    children: &mut Vec<ParagraphChild>,
     visitor: &mut impl DocumentTreeVisitor,
 ) {
+    visitor.visit_inline(children);
     for child in children {
         match child {
             ParagraphChild::Run(run) => visit_run(run, visitor),
@@ -179,6 +216,7 @@ fn visit_hyperlink(link: &mut Hyperlink, visitor: &mut impl DocumentTreeVisitor)
 }
 
 fn visit_insert(insert: &mut Insert, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_inline(&mut insert.children);
     for child in &mut insert.children {
         match child {
             InsertChild::Run(run) => visit_run(run, visitor),
@@ -190,6 +228,7 @@ fn visit_insert(insert: &mut Insert, visitor: &mut impl DocumentTreeVisitor) {
 }
 
 fn visit_delete(delete: &mut Delete, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_inline(&mut delete.children);
     for child in &mut delete.children {
         match child {
             DeleteChild::Run(run) => visit_run(run, visitor),
@@ -200,6 +239,7 @@ fn visit_delete(delete: &mut Delete, visitor: &mut impl DocumentTreeVisitor) {
 }
 
 fn visit_move_from(moved: &mut MoveFrom, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_inline(&mut moved.children);
     for child in &mut moved.children {
         match child {
             MoveFromChild::Run(run) => visit_run(run, visitor),
@@ -210,6 +250,7 @@ fn visit_move_from(moved: &mut MoveFrom, visitor: &mut impl DocumentTreeVisitor)
 }
 
 fn visit_move_to(moved: &mut MoveTo, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_inline(&mut moved.children);
     for child in &mut moved.children {
         match child {
             MoveToChild::Run(run) => visit_run(run, visitor),
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 8ab76db..dc4f96b 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -6,10 +6,12 @@
 
 use std::collections::{HashMap, HashSet};
 
-use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
+use super::document_tree::{
+    visit_document, visit_footer, visit_header, DocumentTreeVisitor, InlineChild,
+};
 use crate::{
     Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
-    ImageIdAndPath, Paragraph, Pic,
+    ImageIdAndPath, Paragraph, Pic, RunProperty,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -232,6 +234,30 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
     fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
         self.hyperlinks.register(link);
     }
+
+    /// Drops the blank runs around the end of a comment range. They are what is
+    /// left of the reference to the comment when a document was read, and are
+    /// written again together with the range end.
+    fn visit_inline<T: InlineChild>(&mut self, children: &mut Vec<T>) {
+        let is_blank = |child: &T| {
+            child.as_run().is_some_and(|run| {
+                run.children.is_empty() && run.run_property == RunProperty::default()
+            })
+        };
+        let mut i = 0;
+        while i < children.len() {
+            if children[i].is_comment_end() {
+                if children.get(i + 1).is_some_and(is_blank) {
+                    children.remove(i + 1);
+                }
+                if i > 0 && is_blank(&children[i - 1]) {
+                    children.remove(i - 1);
+                    continue;
+                }
+            }
+            i += 1;
+        }
+    }
 }
 
 /// Collects the external links of one part, each relationship ID once.
-- 
2.43.0


From b97119e163a275ffb0b58da488ef2b79a9b58446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:05:58 +0000
Subject: [PATCH 23/43] fix: keep the targets of links when a document is saved
 again

---
 docx-core/src/documents/image_collector.rs | 70 ++++++++++++++++++----
 docx-core/src/documents/mod.rs             |  9 +--
 docx-core/src/reader/read_docx.rs          | 23 ++++++-
 3 files changed, 86 insertions(+), 16 deletions(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index dc4f96b..19c6ffe 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -9,6 +9,7 @@ use std::collections::{HashMap, HashSet};
 use super::document_tree::{
     visit_document, visit_footer, visit_header, DocumentTreeVisitor, InlineChild,
 };
+use crate::escape::escape;
 use crate::{
     Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
     ImageIdAndPath, Paragraph, Pic, RunProperty,
@@ -232,7 +233,10 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
     }
 
     fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
-        self.hyperlinks.register(link);
+        // The links of the main document are collected together with its comments.
+        if self.relationship_prefix.is_some() {
+            self.hyperlinks.register(link);
+        }
     }
 
     /// Drops the blank runs around the end of a comment range. They are what is
@@ -264,24 +268,64 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
 #[derive(Default)]
 pub(crate) struct HyperlinkRegistry {
     hyperlinks: Vec<(String, String, String)>,
-    ids: HashSet<String>,
+    index_by_id: HashMap<String, usize>,
+    /// Targets of the links of a document that was read, by relationship ID.
+    loaded: HashMap<String, (String, String)>,
 }
 
 impl HyperlinkRegistry {
     /// Continues with relationships that are already declared.
-    pub(crate) fn with_declared(hyperlinks: Vec<(String, String, String)>) -> Self {
-        let ids = hyperlinks.iter().map(|(id, _, _)| id.clone()).collect();
-        Self { hyperlinks, ids }
+    pub(crate) fn with_declared(
+        hyperlinks: Vec<(String, String, String)>,
+        loaded: &[(String, String, String)],
+    ) -> Self {
+        let index_by_id = hyperlinks
+            .iter()
+            .enumerate()
+            .map(|(index, (id, _, _))| (id.clone(), index))
+            .collect();
+        let loaded = loaded
+            .iter()
+            .map(|(id, target, mode)| (id.clone(), (escape(target), mode.clone())))
+            .collect();
+        Self {
+            hyperlinks,
+            index_by_id,
+            loaded,
+        }
     }
 
     pub(crate) fn register(&mut self, link: &mut Hyperlink) {
-        if let HyperlinkData::External { rid, path } = &link.link {
-            if self.ids.insert(rid.clone()) {
-                // Now support external only
-                self.hyperlinks
-                    .push((rid.clone(), path.clone(), "External".to_owned()));
+        let HyperlinkData::External { rid, path } = &mut link.link else {
+            return;
+        };
+        // Now support external only
+        let mut target = (path.clone(), "External".to_owned());
+        if path.is_empty() {
+            // A link that was read knows its target by the relationship ID only.
+            if let Some(loaded) = self.loaded.get(rid.as_str()) {
+                target = loaded.clone();
+                // The ids of other producers may be the ones of the fixed parts.
+                if is_fixed_rid(rid) {
+                    *rid = format!("rIdHyperlink_{rid}");
+                }
+            } else if self.index_by_id.contains_key(rid.as_str()) {
+                return;
             }
         }
+
+        let preferred = rid.clone();
+        let mut suffix = 1;
+        while let Some(index) = self.index_by_id.get(rid.as_str()) {
+            let (_, path, mode) = &self.hyperlinks[*index];
+            if (path, mode) == (&target.0, &target.1) {
+                return;
+            }
+            suffix += 1;
+            *rid = format!("{preferred}_{suffix}");
+        }
+        self.index_by_id.insert(rid.clone(), self.hyperlinks.len());
+        self.hyperlinks.push((rid.clone(), target.0, target.1));
     }
 
     pub(crate) fn into_hyperlinks(self) -> Vec<(String, String, String)> {
@@ -289,6 +333,12 @@ impl HyperlinkRegistry {
     }
 }
 
+/// Whether an ID may be the one of a styles, settings or custom XML relationship.
+fn is_fixed_rid(id: &str) -> bool {
+    id.strip_prefix("rId")
+        .is_some_and(|number| number.bytes().all(|b| b.is_ascii_digit()))
+}
+
 /// Collects package data from the complete main document tree in one pass.
 pub(crate) fn collect_document_part(
     document: &mut Document,
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 9535d0d..4737c9e 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -14,7 +14,7 @@ mod custom_item_rels;
 mod doc_props;
 mod document;
 mod document_rels;
-mod document_tree;
+pub(crate) mod document_tree;
 mod elements;
 mod font_table;
 mod footer;
@@ -929,9 +929,10 @@ impl Docx {
     fn update_dependencies(&mut self) {
         let mut collector = DependencyCollector {
             comments: vec![],
-            hyperlinks: HyperlinkRegistry::with_declared(std::mem::take(
-                &mut self.document_rels.hyperlinks,
-            )),
+            hyperlinks: HyperlinkRegistry::with_declared(
+                std::mem::take(&mut self.document_rels.hyperlinks),
+                &self.hyperlinks,
+            ),
         };
         visit_document(&mut self.document, &mut collector);
         let DependencyCollector {
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index dfdce49..c2eefc0 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -1,9 +1,26 @@
 use super::header_or_footer_rels::{read_header_or_footer_rels, ReadHeaderOrFooterRels};
 use super::namespace::*;
 use super::*;
+use crate::documents::document_tree::{visit_footer, visit_header, DocumentTreeVisitor};
+use crate::escape::escape;
 
 use zip::ZipArchive;
 
+/// Sets the targets of links in a header or footer, whose relationships are not
+/// kept with the document.
+struct LinkTargets<'a>(&'a ReadHeaderOrFooterRels);
+
+impl DocumentTreeVisitor for LinkTargets<'_> {
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &mut link.link {
+            let mut targets = self.0.target_paths(HYPERLINK_TYPE).into_iter().flatten();
+            if let Some((_, target, _)) = targets.find(|(id, ..)| id == rid) {
+                *path = escape(target.to_str().expect("should convert to str"));
+            }
+        }
+    }
+}
+
 fn read_headers(
     rels: &ReadDocumentRels,
     archive: &mut ZipArchive<Cursor<&[u8]>>,
@@ -12,8 +29,9 @@ fn read_headers(
     for (rid, path, ..) in rels.target_paths(HEADER_TYPE).into_iter().flatten() {
         let name = path.to_str().expect("should have header path.");
         if let Some(d) = read_optional_zip(archive, name)? {
-            if let Ok(h) = Header::from_xml(&d[..]) {
+            if let Ok(mut h) = Header::from_xml(&d[..]) {
                 let rels = read_header_or_footer_rels(archive, path)?;
+                visit_header(&mut h, &mut LinkTargets(&rels));
                 headers.insert(rid.clone(), (h, rels));
             }
         }
@@ -29,8 +47,9 @@ fn read_footers(
     for (rid, path, ..) in rels.target_paths(FOOTER_TYPE).into_iter().flatten() {
         let name = path.to_str().expect("should have footer path.");
         if let Some(d) = read_optional_zip(archive, name)? {
-            if let Ok(h) = Footer::from_xml(&d[..]) {
+            if let Ok(mut h) = Footer::from_xml(&d[..]) {
                 let rels = read_header_or_footer_rels(archive, path)?;
+                visit_footer(&mut h, &mut LinkTargets(&rels));
                 footers.insert(rid.clone(), (h, rels));
             }
         }
-- 
2.43.0


From b9dca36000a1370c5b5474a075433015fe959244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:06:45 +0000
Subject: [PATCH 24/43] fix: keep pictures when a document is saved again

---
 docx-core/src/documents/image_collector.rs | 58 ++++++++++++++++++++--
 docx-core/src/documents/mod.rs             | 14 +++++-
 2 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 19c6ffe..1169f92 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -11,8 +11,8 @@ use super::document_tree::{
 };
 use crate::escape::escape;
 use crate::{
-    Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
-    ImageIdAndPath, Paragraph, Pic, RunProperty,
+    Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, Image,
+    ImageIdAndBuf, ImageIdAndPath, Paragraph, Pic, Png, RunProperty,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -106,6 +106,54 @@ impl MediaRegistry {
     }
 }
 
+/// Gives the pictures of a document that was read their bytes back.
+///
+/// Such pictures know their image by the relationship ID only, and images are
+/// kept for the whole package.
+pub(crate) struct PictureRestorer<'a> {
+    images: HashMap<&'a str, &'a [u8]>,
+}
+
+impl<'a> PictureRestorer<'a> {
+    /// The images of the main document are kept after those of other parts.
+    pub(crate) fn for_document(images: &'a [(String, String, Image, Png)]) -> Self {
+        Self {
+            images: images.iter().map(id_and_png).collect(),
+        }
+    }
+
+    /// An ID which parts use for different images says nothing about the
+    /// picture of a header or footer.
+    pub(crate) fn for_header_or_footer(images: &'a [(String, String, Image, Png)]) -> Self {
+        let mut restorer = Self::for_document(images);
+        for (id, bytes) in images.iter().map(id_and_png) {
+            if restorer.images.get(id).is_some_and(|last| *last != bytes) {
+                restorer.images.remove(id);
+            }
+        }
+        restorer
+    }
+}
+
+/// Media is written as png.
+fn id_and_png((id, _, original, png): &(String, String, Image, Png)) -> (&str, &[u8]) {
+    if png.0.is_empty() {
+        (id, &original.0)
+    } else {
+        (id, &png.0)
+    }
+}
+
+impl DocumentTreeVisitor for PictureRestorer<'_> {
+    fn visit_picture(&mut self, picture: &mut Pic) {
+        if picture.image.is_empty() {
+            if let Some(bytes) = self.images.get(picture.id.as_str()) {
+                picture.image = bytes.to_vec();
+            }
+        }
+    }
+}
+
 /// Data collected from one relationship scope during a tree walk.
 pub(crate) struct CollectedPart {
     pub(crate) relationships: Vec<ImageIdAndPath>,
@@ -165,8 +213,10 @@ impl<'a> PackagePartCollector<'a> {
 
     fn relationship_id(&self, picture_id: &str) -> String {
         match self.relationship_prefix {
-            Some(prefix) => format!("{prefix}{picture_id}"),
-            None => picture_id.to_owned(),
+            Some(prefix) if !picture_id.starts_with(prefix) => format!("{prefix}{picture_id}"),
+            // The ids of other producers may be the ones of the fixed parts.
+            None if is_fixed_rid(picture_id) => format!("rIdImage_{picture_id}"),
+            _ => picture_id.to_owned(),
         }
     }
 
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 4737c9e..56fcdbc 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,10 +85,10 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
-use self::document_tree::{visit_document, DocumentTreeVisitor};
+use self::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
-    HyperlinkRegistry, MediaRegistry,
+    HyperlinkRegistry, MediaRegistry, PictureRestorer,
 };
 
 #[derive(Debug, Clone)]
@@ -856,6 +856,16 @@ impl Docx {
         let has_toc = self.prepare_for_build();
         self.number_headers_and_footers();
 
+        let mut pictures = PictureRestorer::for_document(&self.images);
+        visit_document(&mut self.document, &mut pictures);
+        let mut pictures = PictureRestorer::for_header_or_footer(&self.images);
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut pictures);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut pictures);
+        }
+
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
         let header_rels = self.collect_header_rels(&mut media);
-- 
2.43.0


From 53ac38366166e9c84456b431b42ca7c55844c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:10:43 +0000
Subject: [PATCH 25/43] fix: escape names and values which were written as
 given

---
 docx-core/src/documents/doc_props/core.rs       | 17 +++++++++++------
 docx-core/src/documents/doc_props/custom.rs     |  5 +++--
 .../src/documents/elements/bookmark_start.rs    |  3 ++-
 docx-core/src/documents/elements/comment.rs     |  8 +++++++-
 .../src/documents/elements/data_binding.rs      |  7 ++++---
 docx-core/src/documents/elements/doc_var.rs     |  3 ++-
 docx-core/src/documents/elements/hyperlink.rs   |  4 ++--
 .../src/documents/elements/instr_hyperlink.rs   |  3 ++-
 .../src/documents/elements/instr_pageref.rs     |  3 ++-
 docx-core/src/documents/elements/level_text.rs  |  5 ++++-
 docx-core/src/documents/elements/next.rs        |  5 ++++-
 .../elements/structured_data_tag_property.rs    |  3 ++-
 docx-core/src/documents/elements/sym.rs         |  3 ++-
 docx-core/src/documents/elements/table_style.rs |  3 ++-
 docx-core/src/reader/comment.rs                 |  3 +--
 15 files changed, 50 insertions(+), 25 deletions(-)

diff --git a/docx-core/src/documents/doc_props/core.rs b/docx-core/src/documents/doc_props/core.rs
index ab81dbe..9677612 100644
--- a/docx-core/src/documents/doc_props/core.rs
+++ b/docx-core/src/documents/doc_props/core.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
@@ -77,8 +78,10 @@ impl BuildXML for CoreProps {
                     .as_deref()
                     .unwrap_or("1970-01-01T00:00:00Z"),
             )?
-            .dc_creator(self.config.creator.as_deref().unwrap_or("unknown"))?
-            .cp_last_modified_by(self.config.last_modified_by.as_deref().unwrap_or("unknown"))?
+            .dc_creator(&escape(self.config.creator.as_deref().unwrap_or("unknown")))?
+            .cp_last_modified_by(&escape(
+                self.config.last_modified_by.as_deref().unwrap_or("unknown"),
+            ))?
             .dcterms_modified(
                 "dcterms:W3CDTF",
                 self.config
@@ -87,10 +90,12 @@ impl BuildXML for CoreProps {
                     .unwrap_or("1970-01-01T00:00:00Z"),
             )?
             .cp_revision(&self.config.revision.unwrap_or(1).to_string())?
-            .apply_opt(self.config.description.as_ref(), |v, b| b.dc_description(v))?
-            .apply_opt(self.config.language.as_ref(), |v, b| b.dc_language(v))?
-            .apply_opt(self.config.subject.as_ref(), |v, b| b.dc_subject(v))?
-            .apply_opt(self.config.title.as_ref(), |v, b| b.dc_title(v))?
+            .apply_opt(self.config.description.as_ref(), |v, b| {
+                b.dc_description(&escape(v))
+            })?
+            .apply_opt(self.config.language.as_ref(), |v, b| b.dc_language(&escape(v)))?
+            .apply_opt(self.config.subject.as_ref(), |v, b| b.dc_subject(&escape(v)))?
+            .apply_opt(self.config.title.as_ref(), |v, b| b.dc_title(&escape(v)))?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/doc_props/custom.rs b/docx-core/src/documents/doc_props/custom.rs
index b4a107e..be00dca 100644
--- a/docx-core/src/documents/doc_props/custom.rs
+++ b/docx-core/src/documents/doc_props/custom.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
@@ -40,9 +41,9 @@ impl BuildXML for CustomProps {
                     // I can not find spec about this id.
                     // It is invalid if pid starts from 1...
                     &format!("{}", i + 2),
-                    key,
+                    &escape(key),
                 )?
-                .lpwstr(item)?
+                .lpwstr(&escape(item))?
                 .close()
             })?
             .close()?
diff --git a/docx-core/src/documents/elements/bookmark_start.rs b/docx-core/src/documents/elements/bookmark_start.rs
index 5c2af18..29548fa 100644
--- a/docx-core/src/documents/elements/bookmark_start.rs
+++ b/docx-core/src/documents/elements/bookmark_start.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
@@ -25,7 +26,7 @@ impl BuildXML for BookmarkStart {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .bookmark_start(&self.id.to_string(), &self.name)?
+            .bookmark_start(&self.id.to_string(), &escape(&self.name))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/comment.rs b/docx-core/src/documents/elements/comment.rs
index addbcde..ddcdb41 100644
--- a/docx-core/src/documents/elements/comment.rs
+++ b/docx-core/src/documents/elements/comment.rs
@@ -3,6 +3,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
@@ -111,7 +112,12 @@ impl BuildXML for Comment {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .open_comment(&self.id.to_string(), &self.author, &self.date, "")?
+            .open_comment(
+                &self.id.to_string(),
+                &escape(&self.author),
+                &self.date,
+                "",
+            )?
             .add_children(&self.children)?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/data_binding.rs b/docx-core/src/documents/elements/data_binding.rs
index e7e7e58..dc952a4 100644
--- a/docx-core/src/documents/elements/data_binding.rs
+++ b/docx-core/src/documents/elements/data_binding.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -39,9 +40,9 @@ impl BuildXML for DataBinding {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
             .data_binding(
-                self.xpath.as_ref(),
-                self.prefix_mappings.as_ref(),
-                self.store_item_id.as_ref(),
+                self.xpath.as_deref().map(escape).as_ref(),
+                self.prefix_mappings.as_deref().map(escape).as_ref(),
+                self.store_item_id.as_deref().map(escape).as_ref(),
             )?
             .into_inner()
     }
diff --git a/docx-core/src/documents/elements/doc_var.rs b/docx-core/src/documents/elements/doc_var.rs
index 1dd24d4..46ad985 100644
--- a/docx-core/src/documents/elements/doc_var.rs
+++ b/docx-core/src/documents/elements/doc_var.rs
@@ -2,6 +2,7 @@ use serde::{Deserialize, Serialize};
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
@@ -25,7 +26,7 @@ impl BuildXML for DocVar {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .doc_var(&self.name, &self.val)?
+            .doc_var(&escape(&self.name), &escape(&self.val))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/hyperlink.rs b/docx-core/src/documents/elements/hyperlink.rs
index 2bd9483..86ce9ee 100644
--- a/docx-core/src/documents/elements/hyperlink.rs
+++ b/docx-core/src/documents/elements/hyperlink.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 
 use super::*;
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
+use crate::escape::{escape, escape_owned};
 use crate::types::*;
 use crate::{create_hyperlink_rid, generate_hyperlink_id, xml_builder::*};
 
@@ -107,7 +107,7 @@ impl BuildXML for Hyperlink {
             .apply(|b| match self.link {
                 HyperlinkData::Anchor { ref anchor } => b.open_hyperlink(
                     None,
-                    Some(anchor.clone()).as_ref(),
+                    Some(escape(anchor)).as_ref(),
                     Some(self.history.unwrap_or(1)),
                 ),
                 HyperlinkData::External { ref rid, .. } => b.open_hyperlink(
diff --git a/docx-core/src/documents/elements/instr_hyperlink.rs b/docx-core/src/documents/elements/instr_hyperlink.rs
index 4713124..0aff4e8 100644
--- a/docx-core/src/documents/elements/instr_hyperlink.rs
+++ b/docx-core/src/documents/elements/instr_hyperlink.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_HYPERLINKHYPERLINK_topic_ID0EFYG1.html
@@ -32,7 +33,7 @@ impl BuildXML for InstrHyperlink {
         XMLBuilder::from(stream)
             .plain_text("HYPERLINK ")?
             .apply_if(self.anchor, |b| b.plain_text("\\l "))?
-            .plain_text(&format!("\"{}\"", self.target))?
+            .plain_text(&format!("\"{}\"", escape(&self.target)))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/instr_pageref.rs b/docx-core/src/documents/elements/instr_pageref.rs
index f1829cc..9105136 100644
--- a/docx-core/src/documents/elements/instr_pageref.rs
+++ b/docx-core/src/documents/elements/instr_pageref.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape;
 use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_PAGEREFPAGEREF_topic_ID0EHXK1.html
@@ -39,7 +40,7 @@ impl BuildXML for InstrPAGEREF {
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
             .plain_text("PAGEREF ")?
-            .plain_text(&self.page_ref)?
+            .plain_text(&escape(&self.page_ref))?
             .apply_if(self.relative_position, |b| b.plain_text(" \\p"))?
             .apply_if(self.hyperlink, |b| b.plain_text(" \\h"))?
             .into_inner()
diff --git a/docx-core/src/documents/elements/level_text.rs b/docx-core/src/documents/elements/level_text.rs
index 43a91ff..4362c14 100644
--- a/docx-core/src/documents/elements/level_text.rs
+++ b/docx-core/src/documents/elements/level_text.rs
@@ -2,6 +2,7 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -20,7 +21,9 @@ impl BuildXML for LevelText {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).level_text(&self.val)?.into_inner()
+        XMLBuilder::from(stream)
+            .level_text(&escape(&self.val))?
+            .into_inner()
     }
 }
 
diff --git a/docx-core/src/documents/elements/next.rs b/docx-core/src/documents/elements/next.rs
index 55c475e..27d57cf 100644
--- a/docx-core/src/documents/elements/next.rs
+++ b/docx-core/src/documents/elements/next.rs
@@ -2,6 +2,7 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -29,7 +30,9 @@ impl BuildXML for Next {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).next(&self.val)?.into_inner()
+        XMLBuilder::from(stream)
+            .next(&escape(&self.val))?
+            .into_inner()
     }
 }
 
diff --git a/docx-core/src/documents/elements/structured_data_tag_property.rs b/docx-core/src/documents/elements/structured_data_tag_property.rs
index eb5c8dc..14d46d8 100644
--- a/docx-core/src/documents/elements/structured_data_tag_property.rs
+++ b/docx-core/src/documents/elements/structured_data_tag_property.rs
@@ -4,6 +4,7 @@ use std::io::Write;
 use super::*;
 use crate::documents::BuildXML;
 // use crate::types::*;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
@@ -49,7 +50,7 @@ impl BuildXML for StructuredDataTagProperty {
             .open_structured_tag_property()?
             .add_child(&self.run_property)?
             .add_optional_child(&self.data_binding)?
-            .apply_opt(self.alias.as_ref(), |alias, b| b.alias(alias))?
+            .apply_opt(self.alias.as_ref(), |alias, b| b.alias(&escape(alias)))?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/elements/sym.rs b/docx-core/src/documents/elements/sym.rs
index 8e95908..8dfc4b3 100644
--- a/docx-core/src/documents/elements/sym.rs
+++ b/docx-core/src/documents/elements/sym.rs
@@ -3,6 +3,7 @@ use serde::Deserialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, PartialEq)]
@@ -26,7 +27,7 @@ impl BuildXML for Sym {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .sym(&self.font, &self.char)?
+            .sym(&escape(&self.font), &escape(&self.char))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/documents/elements/table_style.rs b/docx-core/src/documents/elements/table_style.rs
index b4477b1..3ca07f1 100644
--- a/docx-core/src/documents/elements/table_style.rs
+++ b/docx-core/src/documents/elements/table_style.rs
@@ -2,6 +2,7 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -21,7 +22,7 @@ impl BuildXML for TableStyle {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .table_style(&self.val)?
+            .table_style(&escape(&self.val))?
             .into_inner()
     }
 }
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index df47f15..6fa085f 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -2,7 +2,6 @@ use std::io::Read;
 use std::str::FromStr;
 
 use super::*;
-use crate::escape;
 
 impl ElementReader for Comment {
     fn read<R: Read>(
@@ -12,7 +11,7 @@ impl ElementReader for Comment {
         let id = usize::from_str(&read(attrs, "id").ok_or(ReaderError::XMLReadError)?)?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
-            comment = comment.author(escape::escape(author.as_str()));
+            comment = comment.author(author);
         };
         if let Some(date) = read(attrs, "date") {
             comment = comment.date(date);
-- 
2.43.0


From 408873099168631c356443e594e87be494058dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:35 +0000
Subject: [PATCH 26/43] fix: keep headers and footers of earlier sections when
 a document is saved again

---
 docx-core/src/documents/document.rs | 54 +++++++++++++++--------------
 docx-core/src/documents/mod.rs      | 12 +++++--
 docx-core/src/reader/read_docx.rs   | 31 +++++++++++++++++
 3 files changed, 69 insertions(+), 28 deletions(-)

diff --git a/docx-core/src/documents/document.rs b/docx-core/src/documents/document.rs
index 1d9bf4d..5e55510 100644
--- a/docx-core/src/documents/document.rs
+++ b/docx-core/src/documents/document.rs
@@ -261,22 +261,15 @@ impl Document {
         self.section_property.headers().chain(
             self.children
                 .iter()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.headers()),
+                .filter_map(section_property)
+                .flat_map(|property| property.headers()),
         )
     }
 
     /// Iterates section properties in the same order as [`Self::headers`].
     pub(crate) fn section_properties_mut(&mut self) -> impl Iterator<Item = &mut SectionProperty> {
-        std::iter::once(&mut self.section_property).chain(self.children.iter_mut().filter_map(
-            |child| match child {
-                DocumentChild::Section(section) => Some(&mut section.property),
-                _ => None,
-            },
-        ))
+        std::iter::once(&mut self.section_property)
+            .chain(self.children.iter_mut().filter_map(section_property_mut))
     }
 
     /// Iterates mutable headers in the same order as [`Self::headers`].
@@ -284,11 +277,8 @@ impl Document {
         self.section_property.headers_mut().chain(
             self.children
                 .iter_mut()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.headers_mut()),
+                .filter_map(section_property_mut)
+                .flat_map(|property| property.headers_mut()),
         )
     }
 
@@ -297,11 +287,8 @@ impl Document {
         self.section_property.footers().chain(
             self.children
                 .iter()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.footers()),
+                .filter_map(section_property)
+                .flat_map(|property| property.footers()),
         )
     }
 
@@ -310,15 +297,30 @@ impl Document {
         self.section_property.footers_mut().chain(
             self.children
                 .iter_mut()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.footers_mut()),
+                .filter_map(section_property_mut)
+                .flat_map(|property| property.footers_mut()),
         )
     }
 }
 
+/// The property of the section that ends with a child. The sections of a document
+/// that was read end with a paragraph.
+fn section_property(child: &DocumentChild) -> Option<&SectionProperty> {
+    match child {
+        DocumentChild::Section(section) => Some(&section.property),
+        DocumentChild::Paragraph(paragraph) => paragraph.property.section_property.as_ref(),
+        _ => None,
+    }
+}
+
+fn section_property_mut(child: &mut DocumentChild) -> Option<&mut SectionProperty> {
+    match child {
+        DocumentChild::Section(section) => Some(&mut section.property),
+        DocumentChild::Paragraph(paragraph) => paragraph.property.section_property.as_mut(),
+        _ => None,
+    }
+}
+
 impl BuildXML for DocumentChild {
     fn build_to<W: Write>(
         &self,
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 56fcdbc..b0971bd 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1118,7 +1118,12 @@ fn collect_para_ids_in_document_child<'a>(
     counts: &mut HashMap<&'a str, usize>,
 ) {
     match child {
-        DocumentChild::Paragraph(paragraph) => collect_para_ids_in_paragraph(paragraph, counts),
+        DocumentChild::Paragraph(paragraph) => {
+            collect_para_ids_in_paragraph(paragraph, counts);
+            if let Some(property) = &paragraph.property.section_property {
+                collect_para_ids_in_section_property(property, counts);
+            }
+        }
         DocumentChild::Table(table) => collect_para_ids_in_table(table, counts),
         DocumentChild::StructuredDataTag(tag) => {
             collect_para_ids_in_structured_data_tag(tag, counts)
@@ -1398,7 +1403,10 @@ fn refresh_para_ids_in_document_child(
 ) {
     match child {
         DocumentChild::Paragraph(paragraph) => {
-            refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen)
+            refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen);
+            if let Some(property) = &mut paragraph.property.section_property {
+                refresh_para_ids_in_section_property(property, duplicates, used, seen);
+            }
         }
         DocumentChild::Table(table) => refresh_para_ids_in_table(table, duplicates, used, seen),
         DocumentChild::StructuredDataTag(tag) => {
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index c2eefc0..5fd4cca 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -325,6 +325,37 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
         }
     }
 
+    // assign headers and footers of the sections which end in the document
+    let mut media = vec![];
+    for property in docx.document.section_properties_mut().skip(1) {
+        for (reference, target) in [
+            (&property.header_reference, &mut property.header),
+            (&property.first_header_reference, &mut property.first_header),
+            (&property.even_header_reference, &mut property.even_header),
+        ] {
+            let id = reference.as_ref().map(|reference| &reference.id);
+            if let Some((id, (header, rels))) = id.and_then(|id| headers.get_key_value(id)) {
+                *target = Some((id.clone(), header.clone()));
+                media.push(rels);
+            }
+        }
+        for (reference, target) in [
+            (&property.footer_reference, &mut property.footer),
+            (&property.first_footer_reference, &mut property.first_footer),
+            (&property.even_footer_reference, &mut property.even_footer),
+        ] {
+            let id = reference.as_ref().map(|reference| &reference.id);
+            if let Some((id, (footer, rels))) = id.and_then(|id| footers.get_key_value(id)) {
+                *target = Some((id.clone(), footer.clone()));
+                media.push(rels);
+            }
+        }
+    }
+    for rels in media {
+        let media = rels.target_paths(IMAGE_TYPE);
+        docx = add_images(docx, media, &mut archive, options.generate_image_previews)?;
+    }
+
     // store comments to paragraphs.
     if !comments.inner().is_empty() {
         docx.store_comments(comments.inner());
-- 
2.43.0


From 1f99cfacfc5ba23142a77970fe968a5e052a545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:36:47 +0000
Subject: [PATCH 27/43] fix: write negative offsets of floating pictures

---
 docx-core/src/documents/elements/drawing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index c207d77..dd5135d 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -95,7 +95,7 @@ impl BuildXML for Drawing {
 
                     match p.position_h {
                         DrawingPosition::Offset(x) => {
-                            let x = format!("{}", x as u32);
+                            let x = format!("{}", x);
                             b = b.pos_offset(&x)?.close()?;
                         }
                         DrawingPosition::Align(x) => {
@@ -107,7 +107,7 @@ impl BuildXML for Drawing {
 
                     match p.position_v {
                         DrawingPosition::Offset(y) => {
-                            let y = format!("{}", y as u32);
+                            let y = format!("{}", y);
                             b = b.pos_offset(&y)?.close()?;
                         }
                         DrawingPosition::Align(a) => {
-- 
2.43.0


From f2dbd7c1a6b778b94ac94f9b28bf871a5b41c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:37:07 +0000
Subject: [PATCH 28/43] fix: write the overlap and simple position settings of
 pictures as their own attributes

---
 docx-core/src/documents/elements/drawing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index dd5135d..580037b 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -80,8 +80,8 @@ impl BuildXML for Drawing {
                             &format!("{}", p.dist_b),
                             &format!("{}", p.dist_l),
                             &format!("{}", p.dist_r),
-                            "0",
                             if p.simple_pos { "1" } else { "0" },
+                            if p.allow_overlap { "1" } else { "0" },
                             "0",
                             "0",
                             if p.layout_in_cell { "1" } else { "0" },
-- 
2.43.0


From aedc4c68819660048adf08bd7cbb5eb82d7a541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:39:04 +0000
Subject: [PATCH 29/43] fix: leave no package that opens without its parts when
 a save fails

---
 docx-core/src/zipper/mod.rs | 55 +++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/zipper/mod.rs b/docx-core/src/zipper/mod.rs
index 76ba717..0df87cd 100644
--- a/docx-core/src/zipper/mod.rs
+++ b/docx-core/src/zipper/mod.rs
@@ -5,6 +5,57 @@ use std::io::prelude::*;
 use std::io::Seek;
 use zip::write::SimpleFileOptions;
 
+/// Refuses every call after one that failed.
+///
+/// `ZipWriter` completes its archive when it is dropped. Without this a save
+/// that failed half way would leave a package which opens without the parts
+/// that were not written.
+struct StopOnError<W> {
+    inner: W,
+    failed: bool,
+}
+
+impl<W> StopOnError<W> {
+    fn new(inner: W) -> Self {
+        Self {
+            inner,
+            failed: false,
+        }
+    }
+
+    fn call<T>(
+        &mut self,
+        f: impl FnOnce(&mut W) -> std::io::Result<T>,
+    ) -> std::io::Result<T> {
+        if self.failed {
+            return Err(std::io::Error::other("an earlier call failed"));
+        }
+        let result = f(&mut self.inner);
+        if let Err(e) = &result {
+            self.failed = e.kind() != std::io::ErrorKind::Interrupted;
+        }
+        result
+    }
+}
+
+impl<W: Write> Write for StopOnError<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        let written = self.call(|w| w.write(buf))?;
+        self.failed = written == 0 && !buf.is_empty();
+        Ok(written)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.call(|w| w.flush())
+    }
+}
+
+impl<W: Seek> Seek for StopOnError<W> {
+    fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
+        self.call(|w| w.seek(pos))
+    }
+}
+
 /// Renders one XML part into a reusable buffer and writes it to the ZIP entry.
 ///
 /// Buffering one part avoids the many tiny writes that are costly in
@@ -42,7 +93,7 @@ pub fn zip<W>(w: W, xml: XMLDocx) -> zip::result::ZipResult<()>
 where
     W: Write + Seek,
 {
-    let mut zip = zip::ZipWriter::new(w);
+    let mut zip = zip::ZipWriter::new(StopOnError::new(w));
 
     let directory_options = SimpleFileOptions::default();
 
@@ -160,7 +211,7 @@ pub(crate) fn zip_docx<W>(
 where
     W: Write + Seek,
 {
-    let mut zip = zip::ZipWriter::new(writer);
+    let mut zip = zip::ZipWriter::new(StopOnError::new(writer));
     let directory_options = SimpleFileOptions::default();
 
     zip.add_directory("word/", directory_options)?;
-- 
2.43.0


From 5d95d5d7376831f00a981224f0e089556a151e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:44:41 +0000
Subject: [PATCH 30/43] fix: keep pictures of headers and footers apart when
 their ids collide

Relationship ids are unique in one part only, but images of a package that
was read are kept by id for the whole package. A picture in a header was
lost on the next save when another part used its id for another image.
---
 docx-core/src/documents/image_collector.rs    | 15 +----
 docx-core/src/documents/mod.rs                |  3 +-
 docx-core/src/reader/header_or_footer_rels.rs | 10 ++++
 docx-core/src/reader/read_docx.rs             | 58 +++++++++++++++++--
 4 files changed, 66 insertions(+), 20 deletions(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 1169f92..3ff3a42 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -115,24 +115,11 @@ pub(crate) struct PictureRestorer<'a> {
 }
 
 impl<'a> PictureRestorer<'a> {
-    /// The images of the main document are kept after those of other parts.
-    pub(crate) fn for_document(images: &'a [(String, String, Image, Png)]) -> Self {
+    pub(crate) fn new(images: &'a [(String, String, Image, Png)]) -> Self {
         Self {
             images: images.iter().map(id_and_png).collect(),
         }
     }
-
-    /// An ID which parts use for different images says nothing about the
-    /// picture of a header or footer.
-    pub(crate) fn for_header_or_footer(images: &'a [(String, String, Image, Png)]) -> Self {
-        let mut restorer = Self::for_document(images);
-        for (id, bytes) in images.iter().map(id_and_png) {
-            if restorer.images.get(id).is_some_and(|last| *last != bytes) {
-                restorer.images.remove(id);
-            }
-        }
-        restorer
-    }
 }
 
 /// Media is written as png.
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index b0971bd..a256821 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -856,9 +856,8 @@ impl Docx {
         let has_toc = self.prepare_for_build();
         self.number_headers_and_footers();
 
-        let mut pictures = PictureRestorer::for_document(&self.images);
+        let mut pictures = PictureRestorer::new(&self.images);
         visit_document(&mut self.document, &mut pictures);
-        let mut pictures = PictureRestorer::for_header_or_footer(&self.images);
         for (_, header) in self.document.headers_mut() {
             visit_header(header, &mut pictures);
         }
diff --git a/docx-core/src/reader/header_or_footer_rels.rs b/docx-core/src/reader/header_or_footer_rels.rs
index fdef69b..1ca1d60 100644
--- a/docx-core/src/reader/header_or_footer_rels.rs
+++ b/docx-core/src/reader/header_or_footer_rels.rs
@@ -25,6 +25,16 @@ impl ReadHeaderOrFooterRels {
             .map(|s| s.clone().into_iter().collect())
     }
 
+    /// Replaces the IDs of the relationships of one type.
+    pub(crate) fn rename(&mut self, target: &str, mut id: impl FnMut(&str, &Path) -> RId) {
+        if let Some(rels) = self.rels.get_mut(target) {
+            *rels = std::mem::take(rels)
+                .into_iter()
+                .map(|(rid, path, mode)| (id(&rid, &path), path, mode))
+                .collect();
+        }
+    }
+
     pub(crate) fn target_paths(
         &self,
         target: &str,
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 5fd4cca..4caa15b 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -21,8 +21,54 @@ impl DocumentTreeVisitor for LinkTargets<'_> {
     }
 }
 
+/// Tells apart the images of all parts. Images are kept for the whole package by
+/// their relationship ID, which is unique in one part only.
+struct ImageIds {
+    paths: HashMap<RId, PathBuf>,
+}
+
+impl ImageIds {
+    fn new(rels: &ReadDocumentRels) -> Self {
+        let media = rels.target_paths(IMAGE_TYPE).into_iter().flatten();
+        Self {
+            paths: media.map(|(id, path, _)| (id.clone(), path.clone())).collect(),
+        }
+    }
+
+    /// Gives an image of a header or footer another ID when its ID already
+    /// belongs to a different image of the package.
+    fn separate(&mut self, rels: &mut ReadHeaderOrFooterRels) -> RenamedImages {
+        let mut renamed = HashMap::new();
+        rels.rename(IMAGE_TYPE, |id, path| {
+            let mut unique = id.to_owned();
+            let mut suffix = 1;
+            while self.paths.get(&unique).is_some_and(|used| used != path) {
+                suffix += 1;
+                unique = format!("{id}_{suffix}");
+            }
+            self.paths.insert(unique.clone(), path.to_owned());
+            if unique != id {
+                renamed.insert(id.to_owned(), unique.clone());
+            }
+            unique
+        });
+        RenamedImages(renamed)
+    }
+}
+
+struct RenamedImages(HashMap<RId, RId>);
+
+impl DocumentTreeVisitor for RenamedImages {
+    fn visit_picture(&mut self, picture: &mut Pic) {
+        if let Some(id) = self.0.get(&picture.id) {
+            picture.id.clone_from(id);
+        }
+    }
+}
+
 fn read_headers(
     rels: &ReadDocumentRels,
+    images: &mut ImageIds,
     archive: &mut ZipArchive<Cursor<&[u8]>>,
 ) -> Result<HashMap<RId, (Header, ReadHeaderOrFooterRels)>, ReaderError> {
     let mut headers = HashMap::new();
@@ -30,8 +76,9 @@ fn read_headers(
         let name = path.to_str().expect("should have header path.");
         if let Some(d) = read_optional_zip(archive, name)? {
             if let Ok(mut h) = Header::from_xml(&d[..]) {
-                let rels = read_header_or_footer_rels(archive, path)?;
+                let mut rels = read_header_or_footer_rels(archive, path)?;
                 visit_header(&mut h, &mut LinkTargets(&rels));
+                visit_header(&mut h, &mut images.separate(&mut rels));
                 headers.insert(rid.clone(), (h, rels));
             }
         }
@@ -41,6 +88,7 @@ fn read_headers(
 
 fn read_footers(
     rels: &ReadDocumentRels,
+    images: &mut ImageIds,
     archive: &mut ZipArchive<Cursor<&[u8]>>,
 ) -> Result<HashMap<RId, (Footer, ReadHeaderOrFooterRels)>, ReaderError> {
     let mut footers = HashMap::new();
@@ -48,8 +96,9 @@ fn read_footers(
         let name = path.to_str().expect("should have footer path.");
         if let Some(d) = read_optional_zip(archive, name)? {
             if let Ok(mut h) = Footer::from_xml(&d[..]) {
-                let rels = read_header_or_footer_rels(archive, path)?;
+                let mut rels = read_header_or_footer_rels(archive, path)?;
                 visit_footer(&mut h, &mut LinkTargets(&rels));
+                visit_footer(&mut h, &mut images.separate(&mut rels));
                 footers.insert(rid.clone(), (h, rels));
             }
         }
@@ -144,8 +193,9 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 
     let rels = read_document_rels(&mut archive, &document_path)?;
 
-    let headers = read_headers(&rels, &mut archive)?;
-    let footers = read_footers(&rels, &mut archive)?;
+    let mut images = ImageIds::new(&rels);
+    let headers = read_headers(&rels, &mut images, &mut archive)?;
+    let footers = read_footers(&rels, &mut images, &mut archive)?;
 
     docx.themes = read_themes(&rels, &mut archive)?;
 
-- 
2.43.0


From bb55e8257d56871f91baf8575e2fb0c9af72e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:48:20 +0000
Subject: [PATCH 31/43] fix: keep the target with a link whose relationship id
 changes

A link of a document that was read was left with an id that the exported
list of links does not contain.
---
 docx-core/src/documents/image_collector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 3ff3a42..18095dd 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -342,6 +342,7 @@ impl HyperlinkRegistry {
             // A link that was read knows its target by the relationship ID only.
             if let Some(loaded) = self.loaded.get(rid.as_str()) {
                 target = loaded.clone();
+                path.clone_from(&target.0);
                 // The ids of other producers may be the ones of the fixed parts.
                 if is_fixed_rid(rid) {
                     *rid = format!("rIdHyperlink_{rid}");
@@ -354,8 +355,7 @@ impl HyperlinkRegistry {
         let preferred = rid.clone();
         let mut suffix = 1;
         while let Some(index) = self.index_by_id.get(rid.as_str()) {
-            let (_, path, mode) = &self.hyperlinks[*index];
-            if (path, mode) == (&target.0, &target.1) {
+            if self.hyperlinks[*index].1 == target.0 {
                 return;
             }
             suffix += 1;
-- 
2.43.0


From 32f259fdae8e61d1d0901c01da9b3994d33938c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:23:16 +0000
Subject: [PATCH 32/43] fix: do not repeat footnotes that were collected before
 a save

---
 docx-core/src/documents/footnotes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/documents/footnotes.rs b/docx-core/src/documents/footnotes.rs
index 5769a27..486ce9b 100644
--- a/docx-core/src/documents/footnotes.rs
+++ b/docx-core/src/documents/footnotes.rs
@@ -17,7 +17,7 @@ impl Footnotes {
     }
 
     pub(crate) fn add(&mut self, footnotes: Vec<Footnote>) {
-        self.footnotes.extend(footnotes)
+        self.footnotes = footnotes;
     }
 }
 
-- 
2.43.0


From 585bc414c1e8be8f393d0d70084effe95e32d84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:43:34 +0000
Subject: [PATCH 33/43] fix: relate numbering when only footnotes or comments
 use it

---
 docx-core/src/documents/document_tree.rs | 20 ++++++++++++++++++-
 docx-core/src/documents/mod.rs           | 25 +++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index aeb1804..51c77d8 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,7 +5,8 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer, FooterChild, Header,
+    Comment, CommentChild, CommentRangeStart, Delete, DeleteChild, Document, DocumentChild,
+    DrawingData, Footer, FooterChild, Footnote, Header,
     HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild,
     Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild, StructuredDataTag,
     StructuredDataTagChild, Table, TableCellContent, TableChild, TableOfContents, TableRowChild,
@@ -104,6 +105,23 @@ pub(crate) fn visit_footer(footer: &mut Footer, visitor: &mut impl DocumentTreeV
     }
 }
 
+/// Traverses every package-relevant node in one comment.
+pub(crate) fn visit_comment(comment: &mut Comment, visitor: &mut impl DocumentTreeVisitor) {
+    for child in &mut comment.children {
+        match child {
+            CommentChild::Paragraph(paragraph) => visit_paragraph(paragraph, visitor),
+            CommentChild::Table(table) => visit_table(table, visitor),
+        }
+    }
+}
+
+/// Traverses every package-relevant node in one footnote.
+pub(crate) fn visit_footnote(footnote: &mut Footnote, visitor: &mut impl DocumentTreeVisitor) {
+    for paragraph in &mut footnote.content {
+        visit_paragraph(paragraph, visitor);
+    }
+}
+
 fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTreeVisitor) {
     match child {
         DocumentChild::Paragraph(paragraph) => visit_paragraph(paragraph, visitor),
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index a256821..6386f83 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,7 +85,9 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
-use self::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
+use self::document_tree::{
+    visit_comment, visit_document, visit_footer, visit_footnote, visit_header, DocumentTreeVisitor,
+};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
     HyperlinkRegistry, MediaRegistry, PictureRestorer,
@@ -878,6 +880,15 @@ impl Docx {
             self.document_rels.has_footnotes = true;
         }
 
+        let mut numbering = NumberingFinder::default();
+        for footnote in &mut self.footnotes.footnotes {
+            visit_footnote(footnote, &mut numbering);
+        }
+        for comment in &mut self.comments.comments {
+            visit_comment(comment, &mut numbering);
+        }
+        self.document_rels.has_numberings |= numbering.found;
+
         if has_toc {
             for level in 1..=9 {
                 if !self
@@ -1074,6 +1085,18 @@ impl DocumentTreeVisitor for DependencyCollector {
     }
 }
 
+/// Tells whether a numbered paragraph was visited.
+#[derive(Default)]
+struct NumberingFinder {
+    found: bool,
+}
+
+impl DocumentTreeVisitor for NumberingFinder {
+    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+        self.found |= paragraph.property.numbering_property.is_some();
+    }
+}
+
 /// Replaces comment placeholders by the comments read from comments.xml.
 struct CommentStorer<'a> {
     comments_by_id: HashMap<usize, &'a Comment>,
-- 
2.43.0


From 9cfc35855e203fe07c6dcd6ccbc1fc2936c3c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:47:43 +0000
Subject: [PATCH 34/43] fix: relate numbering when only a style uses it

---
 docx-core/src/documents/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 6386f83..829b4a0 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -887,7 +887,12 @@ impl Docx {
         for comment in &mut self.comments.comments {
             visit_comment(comment, &mut numbering);
         }
-        self.document_rels.has_numberings |= numbering.found;
+        self.document_rels.has_numberings |= numbering.found
+            || self
+                .styles
+                .styles
+                .iter()
+                .any(|style| style.paragraph_property.numbering_property.is_some());
 
         if has_toc {
             for level in 1..=9 {
-- 
2.43.0


From eca59378e2e3547f3ef3a1cf8cdab139ce89e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:50:16 +0000
Subject: [PATCH 35/43] fix: read content controls inside content controls

---
 docx-core/src/reader/structured_data_tag.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/docx-core/src/reader/structured_data_tag.rs b/docx-core/src/reader/structured_data_tag.rs
index b97e008..4999bdb 100644
--- a/docx-core/src/reader/structured_data_tag.rs
+++ b/docx-core/src/reader/structured_data_tag.rs
@@ -34,6 +34,13 @@ impl ElementReader for StructuredDataTag {
                             }
                             continue;
                         }
+                        XMLElement::StructuredDataTag => {
+                            if let Ok(tag) = StructuredDataTag::read(r, &attributes) {
+                                sdt.children
+                                    .push(StructuredDataTagChild::StructuredDataTag(Box::new(tag)));
+                            }
+                            continue;
+                        }
                         XMLElement::BookmarkStart => {
                             if let Ok(s) = BookmarkStart::read(r, &attributes) {
                                 sdt.children.push(StructuredDataTagChild::BookmarkStart(s));
-- 
2.43.0


From 1e05f63d624f460c05bd8bb9820f9c4a8a212d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:08:47 +0000
Subject: [PATCH 36/43] fix: relate numbering when only tracked former
 properties use it

---
 docx-core/src/documents/elements/paragraph_property.rs | 9 +++++++++
 docx-core/src/documents/image_collector.rs             | 2 +-
 docx-core/src/documents/mod.rs                         | 4 ++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph_property.rs b/docx-core/src/documents/elements/paragraph_property.rs
index 29dfdca..52c355d 100644
--- a/docx-core/src/documents/elements/paragraph_property.rs
+++ b/docx-core/src/documents/elements/paragraph_property.rs
@@ -159,6 +159,15 @@ impl ParagraphProperty {
         self
     }
 
+    /// Whether the numbering part is referred to, also by tracked former properties.
+    pub(crate) fn uses_numbering(&self) -> bool {
+        self.numbering_property.is_some()
+            || self
+                .paragraph_property_change
+                .as_ref()
+                .is_some_and(|change| change.property.uses_numbering())
+    }
+
     pub fn paragraph_property_change(mut self, p: ParagraphPropertyChange) -> Self {
         self.paragraph_property_change = Some(p);
         self
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 18095dd..0946efa 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -238,7 +238,7 @@ impl<'a> PackagePartCollector<'a> {
 
 impl DocumentTreeVisitor for PackagePartCollector<'_> {
     fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
-        self.has_numbering |= paragraph.property.numbering_property.is_some();
+        self.has_numbering |= paragraph.property.uses_numbering();
     }
 
     fn visit_picture(&mut self, picture: &mut Pic) {
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 829b4a0..5fd4038 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -892,7 +892,7 @@ impl Docx {
                 .styles
                 .styles
                 .iter()
-                .any(|style| style.paragraph_property.numbering_property.is_some());
+                .any(|style| style.paragraph_property.uses_numbering());
 
         if has_toc {
             for level in 1..=9 {
@@ -1098,7 +1098,7 @@ struct NumberingFinder {
 
 impl DocumentTreeVisitor for NumberingFinder {
     fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
-        self.found |= paragraph.property.numbering_property.is_some();
+        self.found |= paragraph.property.uses_numbering();
     }
 }
 
-- 
2.43.0


From 630e52681536e0162e9b962d8894c98f9ef28ff2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Sun, 15 Nov 2026 23:44:47 +0000
Subject: [PATCH 37/43] fix: keep headers and footers of sections that end
 inside a content control

---
 docx-core/src/documents/document.rs | 137 ++++++++++++++++++++--------
 docx-core/src/documents/mod.rs      |  18 ++--
 2 files changed, 109 insertions(+), 46 deletions(-)

diff --git a/docx-core/src/documents/document.rs b/docx-core/src/documents/document.rs
index 5e55510..4f5e943 100644
--- a/docx-core/src/documents/document.rs
+++ b/docx-core/src/documents/document.rs
@@ -258,66 +258,131 @@ impl Document {
     /// to section children in insertion order. Preserving that order avoids a
     /// sort and keeps double-digit IDs aligned with numbered package parts.
     pub(crate) fn headers(&self) -> impl Iterator<Item = &(String, Header)> {
-        self.section_property.headers().chain(
-            self.children
-                .iter()
-                .filter_map(section_property)
-                .flat_map(|property| property.headers()),
-        )
+        self.section_properties()
+            .into_iter()
+            .flat_map(|property| property.headers())
     }
 
     /// Iterates section properties in the same order as [`Self::headers`].
     pub(crate) fn section_properties_mut(&mut self) -> impl Iterator<Item = &mut SectionProperty> {
-        std::iter::once(&mut self.section_property)
-            .chain(self.children.iter_mut().filter_map(section_property_mut))
+        let mut properties = vec![&mut self.section_property];
+        for child in &mut self.children {
+            collect_section_properties_mut(child, &mut properties);
+        }
+        properties.into_iter()
+    }
+
+    fn section_properties(&self) -> Vec<&SectionProperty> {
+        let mut properties = vec![&self.section_property];
+        for child in &self.children {
+            collect_section_properties(child, &mut properties);
+        }
+        properties
     }
 
     /// Iterates mutable headers in the same order as [`Self::headers`].
     pub(crate) fn headers_mut(&mut self) -> impl Iterator<Item = &mut (String, Header)> {
-        self.section_property.headers_mut().chain(
-            self.children
-                .iter_mut()
-                .filter_map(section_property_mut)
-                .flat_map(|property| property.headers_mut()),
-        )
+        self.section_properties_mut()
+            .flat_map(|property| property.headers_mut())
     }
 
     /// Iterates footers in relationship creation order.
     pub(crate) fn footers(&self) -> impl Iterator<Item = &(String, Footer)> {
-        self.section_property.footers().chain(
-            self.children
-                .iter()
-                .filter_map(section_property)
-                .flat_map(|property| property.footers()),
-        )
+        self.section_properties()
+            .into_iter()
+            .flat_map(|property| property.footers())
     }
 
     /// Iterates mutable footers in the same order as [`Self::footers`].
     pub(crate) fn footers_mut(&mut self) -> impl Iterator<Item = &mut (String, Footer)> {
-        self.section_property.footers_mut().chain(
-            self.children
-                .iter_mut()
-                .filter_map(section_property_mut)
-                .flat_map(|property| property.footers_mut()),
-        )
+        self.section_properties_mut()
+            .flat_map(|property| property.footers_mut())
     }
 }
 
-/// The property of the section that ends with a child. The sections of a document
-/// that was read end with a paragraph.
-fn section_property(child: &DocumentChild) -> Option<&SectionProperty> {
+/// Collects the properties of the sections that end in a child. The sections of a
+/// document that was read end with a paragraph, which may be in a content control.
+fn collect_section_properties<'a>(
+    child: &'a DocumentChild,
+    properties: &mut Vec<&'a SectionProperty>,
+) {
     match child {
-        DocumentChild::Section(section) => Some(&section.property),
-        DocumentChild::Paragraph(paragraph) => paragraph.property.section_property.as_ref(),
-        _ => None,
+        DocumentChild::Section(section) => {
+            for child in &section.children {
+                match child {
+                    SectionChild::Paragraph(p) => properties.extend(&p.property.section_property),
+                    SectionChild::StructuredDataTag(tag) => {
+                        collect_section_properties_in_tag(tag, properties)
+                    }
+                    _ => {}
+                }
+            }
+            properties.push(&section.property);
+        }
+        DocumentChild::Paragraph(p) => properties.extend(&p.property.section_property),
+        DocumentChild::StructuredDataTag(tag) => {
+            collect_section_properties_in_tag(tag, properties)
+        }
+        _ => {}
+    }
+}
+
+fn collect_section_properties_in_tag<'a>(
+    tag: &'a StructuredDataTag,
+    properties: &mut Vec<&'a SectionProperty>,
+) {
+    for child in &tag.children {
+        match child {
+            StructuredDataTagChild::Paragraph(p) => {
+                properties.extend(&p.property.section_property)
+            }
+            StructuredDataTagChild::StructuredDataTag(tag) => {
+                collect_section_properties_in_tag(tag, properties)
+            }
+            _ => {}
+        }
     }
 }
 
-fn section_property_mut(child: &mut DocumentChild) -> Option<&mut SectionProperty> {
+fn collect_section_properties_mut<'a>(
+    child: &'a mut DocumentChild,
+    properties: &mut Vec<&'a mut SectionProperty>,
+) {
     match child {
-        DocumentChild::Section(section) => Some(&mut section.property),
-        DocumentChild::Paragraph(paragraph) => paragraph.property.section_property.as_mut(),
-        _ => None,
+        DocumentChild::Section(section) => {
+            for child in &mut section.children {
+                match child {
+                    SectionChild::Paragraph(p) => properties.extend(&mut p.property.section_property),
+                    SectionChild::StructuredDataTag(tag) => {
+                        collect_section_properties_in_tag_mut(tag, properties)
+                    }
+                    _ => {}
+                }
+            }
+            properties.push(&mut section.property);
+        }
+        DocumentChild::Paragraph(p) => properties.extend(&mut p.property.section_property),
+        DocumentChild::StructuredDataTag(tag) => {
+            collect_section_properties_in_tag_mut(tag, properties)
+        }
+        _ => {}
+    }
+}
+
+fn collect_section_properties_in_tag_mut<'a>(
+    tag: &'a mut StructuredDataTag,
+    properties: &mut Vec<&'a mut SectionProperty>,
+) {
+    for child in &mut tag.children {
+        match child {
+            StructuredDataTagChild::Paragraph(p) => {
+                properties.extend(&mut p.property.section_property)
+            }
+            StructuredDataTagChild::StructuredDataTag(tag) => {
+                collect_section_properties_in_tag_mut(tag, properties)
+            }
+            _ => {}
+        }
     }
 }
 
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 5fd4038..ce98889 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1145,12 +1145,7 @@ fn collect_para_ids_in_document_child<'a>(
     counts: &mut HashMap<&'a str, usize>,
 ) {
     match child {
-        DocumentChild::Paragraph(paragraph) => {
-            collect_para_ids_in_paragraph(paragraph, counts);
-            if let Some(property) = &paragraph.property.section_property {
-                collect_para_ids_in_section_property(property, counts);
-            }
-        }
+        DocumentChild::Paragraph(paragraph) => collect_para_ids_in_paragraph(paragraph, counts),
         DocumentChild::Table(table) => collect_para_ids_in_table(table, counts),
         DocumentChild::StructuredDataTag(tag) => {
             collect_para_ids_in_structured_data_tag(tag, counts)
@@ -1266,6 +1261,9 @@ fn collect_para_ids_in_paragraph<'a>(
 ) {
     *counts.entry(paragraph.id.as_str()).or_insert(0) += 1;
 
+    if let Some(property) = &paragraph.property.section_property {
+        collect_para_ids_in_section_property(property, counts);
+    }
     for child in &paragraph.children {
         match child {
             ParagraphChild::Run(run) => collect_para_ids_in_run(run, counts),
@@ -1430,10 +1428,7 @@ fn refresh_para_ids_in_document_child(
 ) {
     match child {
         DocumentChild::Paragraph(paragraph) => {
-            refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen);
-            if let Some(property) = &mut paragraph.property.section_property {
-                refresh_para_ids_in_section_property(property, duplicates, used, seen);
-            }
+            refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen)
         }
         DocumentChild::Table(table) => refresh_para_ids_in_table(table, duplicates, used, seen),
         DocumentChild::StructuredDataTag(tag) => {
@@ -1601,6 +1596,9 @@ fn refresh_para_ids_in_paragraph(
 ) {
     ensure_unique_paragraph_id(paragraph, duplicates, used, seen);
 
+    if let Some(property) = &mut paragraph.property.section_property {
+        refresh_para_ids_in_section_property(property, duplicates, used, seen);
+    }
     for child in &mut paragraph.children {
         match child {
             ParagraphChild::Run(run) => refresh_para_ids_in_run(run, duplicates, used, seen),
-- 
2.43.0


From 8100b335471d524e40b10d0d4f13142be987c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:39:02 +0000
Subject: [PATCH 38/43] fix: read blank and empty field instructions

A run's instruction text made only of blanks was skipped. The text that
followed in the same run was then taken as the instruction.
---
 docx-core/src/reader/run.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 6e54683..5188616 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -106,26 +106,29 @@ impl ElementReader for Run {
                                         run.children.push(RunChild::FieldChar(f));
                                     }
                                 }
-                                XMLElement::InstrText => loop {
-                                    let e = r.next_event();
-                                    match e {
-                                        Ok(XmlEvent::Characters(c)) => {
-                                            run.children.push(RunChild::InstrTextString(c));
-                                            break;
-                                        }
-                                        Ok(XmlEvent::EndElement { name, .. }) => {
-                                            let e = XMLElement::from_str(&name.local_name).unwrap();
-                                            match e {
-                                                XMLElement::Run => {
-                                                    return Ok(run);
+                                XMLElement::InstrText => {
+                                    let mut instruction = String::new();
+                                    loop {
+                                        let e = r.next_event();
+                                        match e {
+                                            Ok(XmlEvent::Characters(c))
+                                            | Ok(XmlEvent::Whitespace(c)) => {
+                                                instruction.push_str(&c);
+                                            }
+                                            Ok(XmlEvent::EndElement { name, .. }) => {
+                                                let e =
+                                                    XMLElement::from_str(&name.local_name).unwrap();
+                                                if e == XMLElement::InstrText {
+                                                    run.children
+                                                        .push(RunChild::InstrTextString(instruction));
+                                                    break;
                                                 }
-                                                _ => {}
                                             }
+                                            Err(_) => return Err(ReaderError::XMLReadError),
+                                            _ => {}
                                         }
-                                        Err(_) => return Err(ReaderError::XMLReadError),
-                                        _ => {}
                                     }
-                                },
+                                }
                                 _ => {}
                             }
                         }
-- 
2.43.0


From fa551d55013c035b5273f79ff85873010d6e3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:40:43 +0000
Subject: [PATCH 39/43] fix: read custom properties whose value is blank or
 empty

They were dropped when a document was opened.
---
 docx-core/src/reader/custom_properties.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index d3f1928..58dbfb3 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -24,10 +24,21 @@ impl FromXML for CustomProps {
                                         if let Ok(VtXMLElement::Lpwstr) =
                                             VtXMLElement::from_str(&name.local_name)
                                         {
-                                            let e = r.next_event();
-                                            if let Ok(XmlEvent::Characters(c)) = e {
-                                                props = props.add_custom_property(&key, c)
+                                            let mut value = String::new();
+                                            loop {
+                                                match r.next_event() {
+                                                    Ok(XmlEvent::Characters(c))
+                                                    | Ok(XmlEvent::Whitespace(c)) => {
+                                                        value.push_str(&c)
+                                                    }
+                                                    Ok(XmlEvent::EndElement { .. }) => break,
+                                                    Err(_) => {
+                                                        return Err(ReaderError::XMLReadError)
+                                                    }
+                                                    _ => {}
+                                                }
                                             }
+                                            props = props.add_custom_property(&key, value);
                                         }
                                     }
                                     Ok(XmlEvent::EndElement { name, .. }) => {
-- 
2.43.0


From d633ec748a1d827d857cd3e213a5ed32e55dbdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:03 +0000
Subject: [PATCH 40/43] fix: keep tabs in stored attribute values

A literal tab in an attribute is read as a space.
---
 docx-core/src/escape/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/escape/mod.rs b/docx-core/src/escape/mod.rs
index e29efc4..48bb5a0 100644
--- a/docx-core/src/escape/mod.rs
+++ b/docx-core/src/escape/mod.rs
@@ -8,6 +8,7 @@ pub(crate) fn escape(text: &str) -> String {
             '"' => escaped.push_str("&quot;"),
             '\'' => escaped.push_str("&apos;"),
             '\n' => escaped.push_str("&#xA;"),
+            '\t' => escaped.push_str("&#x9;"),
             // Escaping carriage returns causes errors in LibreOffice.
             '\r' => {}
             _ => escaped.push(ch),
@@ -24,7 +25,7 @@ pub(crate) fn escape_owned(text: String) -> String {
     if text
         .as_bytes()
         .iter()
-        .any(|byte| matches!(byte, b'&' | b'<' | b'>' | b'"' | b'\'' | b'\n' | b'\r'))
+        .any(|byte| matches!(byte, b'&' | b'<' | b'>' | b'"' | b'\'' | b'\n' | b'\r' | b'\t'))
     {
         escape(&text)
     } else {
-- 
2.43.0


From a5a665bf19099e839d759d32e46068a03336c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:41 +0000
Subject: [PATCH 41/43] fix: do not give a heading the id or name of a bookmark
 that is already in the document

---
 docx-core/src/documents/document_tree.rs | 26 ++++-----
 docx-core/src/documents/mod.rs           | 70 ++++++++++++++++++++++--
 2 files changed, 78 insertions(+), 18 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index 51c77d8..f835607 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,8 +5,8 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    Comment, CommentChild, CommentRangeStart, Delete, DeleteChild, Document, DocumentChild,
-    DrawingData, Footer, FooterChild, Footnote, Header,
+    BookmarkStart, Comment, CommentChild, CommentRangeStart, Delete, DeleteChild, Document,
+    DocumentChild, DrawingData, Footer, FooterChild, Footnote, Header,
     HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild,
     Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild, StructuredDataTag,
     StructuredDataTagChild, Table, TableCellContent, TableChild, TableOfContents, TableRowChild,
@@ -34,6 +34,9 @@ pub(crate) trait DocumentTreeVisitor {
     /// Visits the start of a comment range.
     fn visit_comment_start(&mut self, _start: &mut CommentRangeStart) {}
 
+    /// Visits the start of a bookmark.
+    fn visit_bookmark_start(&mut self, _start: &BookmarkStart) {}
+
     /// Visits a hyperlink before its children are traversed.
     fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
 
@@ -130,9 +133,8 @@ fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTr
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
         DocumentChild::CommentStart(start) => visitor.visit_comment_start(start),
-        DocumentChild::BookmarkStart(_)
-        | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentEnd(_) => {}
+        DocumentChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+        DocumentChild::BookmarkEnd(_) | DocumentChild::CommentEnd(_) => {}
     }
 }
 
@@ -144,9 +146,8 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
             SectionChild::CommentStart(start) => visitor.visit_comment_start(start),
-            SectionChild::BookmarkStart(_)
-            | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentEnd(_) => {}
+            SectionChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+            SectionChild::BookmarkEnd(_) | SectionChild::CommentEnd(_) => {}
         }
     }
 }
@@ -192,9 +193,8 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
                 visit_structured_data_tag(tag, visitor)
             }
             StructuredDataTagChild::CommentStart(start) => visitor.visit_comment_start(start),
-            StructuredDataTagChild::BookmarkStart(_)
-            | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentEnd(_) => {}
+            StructuredDataTagChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+            StructuredDataTagChild::BookmarkEnd(_) | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
 }
@@ -219,8 +219,8 @@ fn visit_paragraph_children(
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             ParagraphChild::CommentStart(start) => visitor.visit_comment_start(start),
-            ParagraphChild::BookmarkStart(_)
-            | ParagraphChild::BookmarkEnd(_)
+            ParagraphChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+            ParagraphChild::BookmarkEnd(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index ce98889..82e2326 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -828,6 +828,11 @@ impl Docx {
             })
             .collect();
 
+        if auto_toc_indexes.is_empty() {
+            return has_toc;
+        }
+        let bookmarks = self.collect_bookmarks();
+
         for index in auto_toc_indexes {
             let mut children = std::mem::take(&mut self.document.children);
             let toc = match std::mem::replace(
@@ -837,12 +842,26 @@ impl Docx {
                 DocumentChild::TableOfContents(toc) => *toc,
                 _ => unreachable!("collected index must still contain a table of contents"),
             };
-            self.document.children = update_document_by_toc(children, &self.styles, toc, index);
+            self.document.children =
+                update_document_by_toc(children, &self.styles, toc, index, &bookmarks);
         }
 
         has_toc
     }
 
+    /// Collects the bookmarks that are already in any part of the document.
+    fn collect_bookmarks(&mut self) -> UsedBookmarks {
+        let mut bookmarks = UsedBookmarks::default();
+        visit_document(&mut self.document, &mut bookmarks);
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut bookmarks);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut bookmarks);
+        }
+        bookmarks
+    }
+
     /// Prepares the complete document tree for package-part rendering.
     fn prepare_for_build(&mut self) -> bool {
         self.reset();
@@ -1842,6 +1861,46 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
+/// Ids and names of bookmarks set by the author or read from a stored document.
+///
+/// The counters for generated bookmarks do not know them.
+#[derive(Default)]
+struct UsedBookmarks {
+    ids: HashSet<usize>,
+    names: HashSet<String>,
+}
+
+impl DocumentTreeVisitor for UsedBookmarks {
+    fn visit_bookmark_start(&mut self, start: &BookmarkStart) {
+        self.ids.insert(start.id);
+        self.names.insert(start.name.clone());
+    }
+
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        visit_comment(&mut start.get_comment_ref().clone(), self);
+    }
+
+    fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
+        visit_footnote(&mut Footnote::from(reference), self);
+    }
+}
+
+impl UsedBookmarks {
+    fn unused_id(&self) -> usize {
+        (0..self.ids.len())
+            .map(|_| generate_bookmark_id())
+            .find(|id| !self.ids.contains(id))
+            .unwrap_or_else(generate_bookmark_id)
+    }
+
+    fn unused_toc_key(&self) -> String {
+        (0..self.names.len())
+            .map(|_| TocKey::generate())
+            .find(|key| !self.names.contains(key))
+            .unwrap_or_else(TocKey::generate)
+    }
+}
+
 /// Populates an automatic TOC and bookmarks matching headings in place.
 ///
 /// `document_children[toc_index]` is the temporary placeholder installed by
@@ -1852,6 +1911,7 @@ fn update_document_by_toc(
     styles: &Styles,
     mut toc: TableOfContents,
     toc_index: usize,
+    bookmarks: &UsedBookmarks,
 ) -> Vec<DocumentChild> {
     let heading_map = styles.create_heading_style_map();
     let mut items = vec![];
@@ -1885,14 +1945,14 @@ fn update_document_by_toc(
                     .copied();
                 if let Some(heading_level) = heading_level {
                     if min <= heading_level && max >= heading_level {
-                        let toc_key = TocKey::generate();
+                        let toc_key = bookmarks.unused_toc_key();
                         items.push(
                             TableOfContentsItem::new()
                                 .text(paragraph.raw_text())
                                 .toc_key(&toc_key)
                                 .level(heading_level),
                         );
-                        paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
+                        paragraph.wrap_by_bookmark(bookmarks.unused_id(), &toc_key);
                     }
 
                     if let Some((_min, _max)) = toc.instr.tc_field_level_range {
@@ -1909,14 +1969,14 @@ fn update_document_by_toc(
                     .copied();
                 if let Some(level) = custom_level {
                     if min <= level && max >= level {
-                        let toc_key = TocKey::generate();
+                        let toc_key = bookmarks.unused_toc_key();
                         items.push(
                             TableOfContentsItem::new()
                                 .text(paragraph.raw_text())
                                 .toc_key(&toc_key)
                                 .level(level),
                         );
-                        paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
+                        paragraph.wrap_by_bookmark(bookmarks.unused_id(), &toc_key);
                     }
                 }
             }
-- 
2.43.0


From c88fef8908add42012faeffc160b65df39d48265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:08 +0000
Subject: [PATCH 42/43] fix: escape the text of field instructions

A caption label, style name or raw instruction with an ampersand or an angle
bracket made the part ill-formed, so the saved document could not be opened.
---
 .../src/documents/elements/delete_instr_text.rs |  3 ++-
 docx-core/src/documents/elements/instr_tc.rs    |  4 ++--
 docx-core/src/documents/elements/instr_text.rs  |  3 ++-
 docx-core/src/documents/elements/instr_toc.rs   | 17 +++++++++--------
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/docx-core/src/documents/elements/delete_instr_text.rs b/docx-core/src/documents/elements/delete_instr_text.rs
index 873b20f..12ae81c 100644
--- a/docx-core/src/documents/elements/delete_instr_text.rs
+++ b/docx-core/src/documents/elements/delete_instr_text.rs
@@ -3,6 +3,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -26,7 +27,7 @@ impl BuildXML for DeleteInstrText {
                 DeleteInstrText::TC(tc) => b.add_child(tc),
                 DeleteInstrText::PAGEREF(page_ref) => b.add_child(page_ref),
                 DeleteInstrText::HYPERLINK(link) => b.add_child(link),
-                DeleteInstrText::Unsupported(s) => b.plain_text(s),
+                DeleteInstrText::Unsupported(s) => b.plain_text(&escape(s)),
             })?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/instr_tc.rs b/docx-core/src/documents/elements/instr_tc.rs
index d0465e0..2c423b5 100644
--- a/docx-core/src/documents/elements/instr_tc.rs
+++ b/docx-core/src/documents/elements/instr_tc.rs
@@ -2,7 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
-use crate::escape::escape_owned;
+use crate::escape::{escape, escape_owned};
 use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_TCTC_topic_ID0EU2N1.html
@@ -52,7 +52,7 @@ impl BuildXML for InstrTC {
         write!(raw, "TC \"{}\"", self.text)?;
 
         if let Some(ref t) = self.item_type_identifier {
-            write!(raw, " \\f {t}")?;
+            write!(raw, " \\f {}", escape(t))?;
         }
 
         if let Some(level) = self.level {
diff --git a/docx-core/src/documents/elements/instr_text.rs b/docx-core/src/documents/elements/instr_text.rs
index 84ac94c..49f9215 100644
--- a/docx-core/src/documents/elements/instr_text.rs
+++ b/docx-core/src/documents/elements/instr_text.rs
@@ -3,6 +3,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -30,7 +31,7 @@ impl BuildXML for Box<InstrText> {
                 InstrText::PAGE(page) => b.add_child(page),
                 InstrText::NUMPAGES(page) => b.add_child(page),
                 InstrText::HYPERLINK(link) => b.add_child(link),
-                InstrText::Unsupported(s) => b.plain_text(s),
+                InstrText::Unsupported(s) => b.plain_text(&escape(s)),
             })?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index a73951f..b2850fa 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape;
 use crate::xml_builder::XMLBuilder;
 
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -172,28 +173,28 @@ impl BuildXML for InstrToC {
 
         // \a
         if let Some(ref t) = self.caption_label {
-            write!(raw, " \\a &quot;{t}&quot;")?;
+            write!(raw, " \\a &quot;{}&quot;", escape(t))?;
         }
 
         // \b
         if let Some(ref t) = self.entry_bookmark_name {
-            write!(raw, " \\b &quot;{t}&quot;")?;
+            write!(raw, " \\b &quot;{}&quot;", escape(t))?;
         }
 
         // \c
         if let Some(ref t) = self.caption_label_including_numbers {
-            write!(raw, " \\c &quot;{t}&quot;")?;
+            write!(raw, " \\c &quot;{}&quot;", escape(t))?;
         }
 
         // \d
         if let Some(ref t) = self.sequence_and_page_numbers_separator {
-            write!(raw, " \\d &quot;{t}&quot;")?;
+            write!(raw, " \\d &quot;{}&quot;", escape(t))?;
         }
 
         // \f
         if let Some(ref t) = self.tc_field_identifier {
             if let Some(ref t) = t {
-                write!(raw, " \\f &quot;{t}&quot;")?;
+                write!(raw, " \\f &quot;{}&quot;", escape(t))?;
             } else {
                 write!(raw, " \\f")?;
             }
@@ -216,12 +217,12 @@ impl BuildXML for InstrToC {
 
         // \p
         if let Some(ref t) = self.entry_and_page_number_separator {
-            write!(raw, " \\p &quot;{t}&quot;")?;
+            write!(raw, " \\p &quot;{}&quot;", escape(t))?;
         }
 
         // \s
         if let Some(ref t) = self.seq_field_identifier_for_prefix {
-            write!(raw, " \\s &quot;{t}&quot;")?;
+            write!(raw, " \\s &quot;{}&quot;", escape(t))?;
         }
 
         // \t
@@ -232,7 +233,7 @@ impl BuildXML for InstrToC {
                 .map(|s| format!("{},{}", (s.0).0, (s.0).1))
                 .collect::<Vec<String>>()
                 .join(",");
-            write!(raw, " \\t &quot;{s}&quot;")?;
+            write!(raw, " \\t &quot;{}&quot;", escape(&s))?;
         }
 
         // \h
-- 
2.43.0


From 28cc87c8d832d97b1aba819b88fceac2b4284e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:08 +0000
Subject: [PATCH 43/43] fix: escape the names and references of web extensions

A property name, store or reference with an ampersand or an angle bracket made
the part ill-formed.
---
 docx-core/src/documents/webextension.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/webextension.rs b/docx-core/src/documents/webextension.rs
index a9739dd..7bb7bf2 100644
--- a/docx-core/src/documents/webextension.rs
+++ b/docx-core/src/documents/webextension.rs
@@ -65,18 +65,18 @@ impl BuildXML for WebExtension {
             .declaration(Some(true))?
             .open_webextension(
                 "http://schemas.microsoft.com/office/webextensions/webextension/2010/11",
-                &format!("{{{}}}", self.id),
+                &format!("{{{}}}", escape(&self.id)),
             )?
             .webextension_reference(
-                &self.reference_id,
-                &self.version,
-                &self.store,
-                &self.store_type,
+                &escape(&self.reference_id),
+                &escape(&self.version),
+                &escape(&self.store),
+                &escape(&self.store_type),
             )?
             .webextension_alternate_references()?
             .open_webextension_properties()?
             .apply_each(&self.properties, |p, b| {
-                b.webextension_property(&p.name, &p.value)
+                b.webextension_property(&escape(&p.name), &p.value)
             })?
             .close()?
             .webextension_bindings()?
-- 
2.43.0

