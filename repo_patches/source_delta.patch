From 58cd06d11d0ed9c9b5099e3941cf0c299ff3332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 01/42] fix: restore more than one leading tab with -t Nk

The position of each restored tab was taken from the expanded indentation, not
from the string which earlier tabs had already made shorter. With two or more
leading tabs, the box ended up indented too little.
---
 src/tools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.c b/src/tools.c
index 2960f62..76c475c 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -391,7 +391,7 @@ uint32_t *tabbify_indent(const size_t lineno, uint32_t *indentspc, const size_t
         if (tpos + nspc > input.indent) {
             break;
         }
-        set_char_at(result, tpos, char_tab);
+        set_char_at(result, tpos - (indentspc_len - result_len), char_tab);
         result_len -= nspc - 1;
         set_char_at(result, result_len, char_nul);
     }
-- 
2.43.0


From a45c0c36875d0a80b78e954306de3902878a992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 02/42] fix: heap overflow by one byte per tab in
 bxs_from_unicode()

The ASCII equivalent was sized with u32_strwidth(), which counts a tab as zero
columns, but one byte is stored for each tab. This happened for every line of
output indented with two or more tabs, and for strings in config files.
---
 src/bxstring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bxstring.c b/src/bxstring.c
index 27abdea..facbaa3 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -91,6 +91,11 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
     result->memory = u32_strdup(pInput);
     result->num_chars = u32_strlen(pInput);
     size_t ascii_len = ((size_t) u32_strwidth(pInput, encoding)) + 1;
+    for (const uint32_t *t = pInput; *t != char_nul; t++) {
+        if (*t == char_tab) {
+            ++ascii_len;   /* a tab gets one ASCII character below, although its width according to Unicode is 0 */
+        }
+    }
     result->ascii = (char *) calloc(ascii_len, sizeof(char));
     size_t map_size = 5;
     result->first_char = (size_t *) calloc(map_size, sizeof(size_t));
-- 
2.43.0


From e38eca56402fb6abd9bf0c5a7553f9b96d1cb305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 03/42] fix: do not crash when a line of the text contains a
 control character

---
 src/input.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input.c b/src/input.c
index 1442d6e..a696fa2 100644
--- a/src/input.c
+++ b/src/input.c
@@ -159,6 +159,9 @@ int apply_substitutions(input_t *result, const int mode)
 
             bxs_free(result->lines[k].text);
             result->lines[k].text = bxs_from_unicode(newtext);
+            if (result->lines[k].text == NULL) {
+                return 1;
+            }
 
             analyze_line_ascii(result, result->lines + k);   /* update maxline value */
 
@@ -254,6 +257,10 @@ input_t *read_all_input()
             }
             result->lines[result->num_lines].text = bxs_from_unicode(temp);
             BFREE(temp);
+            if (result->lines[result->num_lines].text == NULL) {
+                BFREE(result->lines);
+                return NULL;
+            }
         }
         else {
             result->lines[result->num_lines].text = bxs_new_empty_string();
-- 
2.43.0


From b72c0ab7918a32f672fb100a16766d3e4e384f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 04/42] fix: report an error when reading the input file fails

---
 src/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input.c b/src/input.c
index a696fa2..69cec56 100644
--- a/src/input.c
+++ b/src/input.c
@@ -270,7 +270,7 @@ input_t *read_all_input()
         ++result->num_lines;
     }
 
-    if (ferror(stdin)) {
+    if (ferror(opt.infile)) {
         perror(PROJECT);
         BFREE(result->lines);
         return NULL;
-- 
2.43.0


From d23f643a3b19a9daa982067d09579b8e0dd1ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 05/42] fix: report an error when writing the output fails

---
 src/boxes.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 90f046e..95f66af 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -176,6 +176,23 @@ static int build_design(design_t **adesigns, const char *cld)
 
 
 
+/**
+ * Make sure that everything we printed was really written.
+ * @param stream the output stream to check
+ * @param rc the exit code to use when there is no problem
+ * @return the exit code of the program
+ */
+static int finish_output(FILE *stream, const int rc)
+{
+    if (fflush(stream) != 0 || ferror(stream)) {
+        perror(PROJECT);
+        return EXIT_FAILURE;
+    }
+    return rc;
+}
+
+
+
 /**
  * Process command line options and store the result in the global `opt` struct. May exit the program.
  */
@@ -189,11 +206,11 @@ static void handle_command_line(int argc, char *argv[])
     }
     if (parsed_opts->help) {
         usage_long(stdout);
-        exit(EXIT_SUCCESS);
+        exit(finish_output(stdout, EXIT_SUCCESS));
     }
     if (parsed_opts->version_requested) {
         printf("%s version %s\n", PROJECT, VERSION);
-        exit(EXIT_SUCCESS);
+        exit(finish_output(stdout, EXIT_SUCCESS));
     }
     memcpy(&opt, parsed_opts, sizeof(opt_t));
     BFREE(parsed_opts);
@@ -524,13 +541,13 @@ int main(int argc, char *argv[])
     /* If "-l" option was given, list designs and exit. */
     if (opt.l) {
         rc = list_designs();
-        exit(rc);
+        exit(finish_output(opt.outfile, rc));
     }
 
     /* If "-q" option was given, print results of tag query and exit. */
     if (opt.query != NULL && opt.query[0] != NULL) {
         rc = query_by_tag();
-        exit(rc);
+        exit(finish_output(opt.outfile, rc));
     }
 
     apply_expected_size();
@@ -560,7 +577,7 @@ int main(int argc, char *argv[])
         }
     } while (opt.mend > 0);
 
-    return EXIT_SUCCESS;
+    return finish_output(opt.outfile, EXIT_SUCCESS);
 }
 
 /* vim: set sw=4: */
-- 
2.43.0


From 9a4bafb9a82367c8a60a98fe2508bb47a3609331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 06/42] fix: do not require a config file when -c is used

---
 src/boxes.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 95f66af..2299bec 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -223,11 +223,11 @@ static void handle_command_line(int argc, char *argv[])
  */
 static void handle_config_parsing()
 {
-    bxstr_t *config_file = discover_config_file(0);
-    if (config_file == NULL) {
-        exit(EXIT_FAILURE);
-    }
     if (opt.cld == NULL) {
+        bxstr_t *config_file = discover_config_file(0);
+        if (config_file == NULL) {
+            exit(EXIT_FAILURE);
+        }
         size_t r_num_designs = 0;
         designs = parse_config_files(config_file, &r_num_designs);
         if (designs == NULL) {
-- 
2.43.0


From 8f3a52f2f541602f12c8ca0f4e88383508e63991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 07/42] fix: buffer overflow and crash with -c and special
 characters

---
 src/boxes.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 2299bec..47c1868 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -111,6 +111,9 @@ static int build_design(design_t **adesigns, const char *cld)
     uint32_t *cld_u32 = u32_strconv_from_arg(cld, "UTF-8");
     bxstr_t *cldW = bxs_from_unicode(cld_u32);
     BFREE(cld_u32);
+    if (cldW == NULL) {
+        return 1;
+    }
 
     dp->shape[W].name = W;
     dp->shape[W].height = 1;
@@ -122,7 +125,7 @@ static int build_design(design_t **adesigns, const char *cld)
     }
     bxs_free(dp->shape[W].mbcs[0]);
     dp->shape[W].mbcs[0] = cldW;
-    strcpy(dp->shape[W].chars[0], cld);
+    strcpy(dp->shape[W].chars[0], cldW->ascii);
 
     for (i = 0; i < NUM_SHAPES; ++i) {
         c = dp->shape + i;
-- 
2.43.0


From 05be1cb6d4fb5192e9c5ab5bafd84a72948effa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 08/42] fix: crash when box parts overlap on removal

---
 src/remove.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index 3081894..8391ba7 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1018,6 +1018,9 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
         bxstr_t *org_line = input.lines[input_line_idx].text;
         size_t s_idx = calculate_start_idx(ctx, body_line_idx);
         size_t e_idx = calculate_end_idx(ctx, body_line_idx);
+        if (e_idx < s_idx) {
+            e_idx = s_idx; /* west and east parts overlap */
+        }
         log_debug(__FILE__, MAIN, "remove_vertical_from_input(): body_line_idx=%d, input_line_idx=%d, s_idx=%d, "
                 "e_idx=%d, input.indent=%d\n", (int) body_line_idx, (int) input_line_idx, (int) s_idx, (int) e_idx,
                 (int) input.indent);
@@ -1145,6 +1148,9 @@ int remove_box()
     else {
         ctx->bottom_start_idx = find_bottom_side(ctx);
     }
+    /* A line which matches both the top and the bottom side belongs to the top. */
+    ctx->bottom_end_idx = BMAX(ctx->bottom_end_idx, ctx->top_end_idx);
+    ctx->bottom_start_idx = BMAX(ctx->bottom_start_idx, ctx->top_end_idx);
     log_debug(__FILE__, MAIN, "ctx->bottom_start_idx = %d, ctx->bottom_end_idx = %d\n", (int) ctx->bottom_start_idx,
             (int) ctx->bottom_end_idx);
     if (ctx->bottom_start_idx > ctx->top_end_idx) {
-- 
2.43.0


From 1db5c51bb61459786574c3d216d66470039e3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 09/42] fix: text lost when all lines begin with a double-wide
 space

---
 src/bxstring.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bxstring.c b/src/bxstring.c
index facbaa3..aac647d 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -148,6 +148,9 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
                 }
             }
             if (is_blank(c)) {
+                if (cols != 1) {
+                    indent_active = 0;  /* a double-wide space (U+3000) is text, indentation is counted in columns */
+                }
                 if (indent_active) {
                     result->indent += cols;
                 }
-- 
2.43.0


From 508c81dcd5ea169504818be55e758754790b052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:53 +0000
Subject: [PATCH 10/42] fix: endless loop with designs whose opposite sides can
 never be equally long

---
 src/generate.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index ea937d7..01e268c 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -58,6 +58,7 @@ static int horiz_precalc(const sentry_t *sarr,
     int i;
     size_t target_width;      /* assumed text width for minimum box size */
     int btoggle, ttoggle;     /* for case 3 w/ 2 elastics */
+    size_t excess = 0;        /* steps taken after both parts were wide enough */
 
     /*
      *  Initialize future result values
@@ -216,6 +217,11 @@ static int horiz_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in horiz_precalc()\n", PROJECT);
                 return 1;
         }
+
+        if (twidth > target_width && bwidth > target_width && ++excess > 8 * opt.design->minwidth) {
+            bx_fprintf(stderr, "%s: The top and bottom sides of the box can never be equally wide\n", PROJECT);
+            return 1;
+        }
     } while (twidth != bwidth || twidth < target_width || bwidth < target_width);
 
     *hspace = twidth;                    /* return either one */
@@ -249,6 +255,7 @@ static int vert_precalc(const sentry_t *sarr,
     int i;
     size_t target_height;     /* assumed text height for minimum box size */
     int rtoggle, ltoggle;     /* for case 3 w/ 2 elastics */
+    size_t excess = 0;        /* steps taken after both parts were high enough */
 
     /*
      *  Initialize future result values
@@ -400,6 +407,11 @@ static int vert_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in vert_precalc()\n", PROJECT);
                 return 1;
         }
+
+        if (lheight > target_height && rheight > target_height && ++excess > 8 * opt.design->minheight) {
+            bx_fprintf(stderr, "%s: The left and right sides of the box can never be equally high\n", PROJECT);
+            return 1;
+        }
     } while (lheight != rheight || lheight < target_height || rheight < target_height);
 
     *vspace = lheight;                   /* return either one */
-- 
2.43.0


From 0fbdd7fb2aa9543b5cae0fede0a778118470bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 11/42] fix: designs rejected when the ELASTIC block precedes
 the SHAPES block

---
 src/parsecode.c | 1 -
 src/parser.y    | 2 ++
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 9d5eb1c..6724a7f 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -491,7 +491,6 @@ int action_finalize_shapes(pass_to_bison *bison_args)
                 }
                 c->height = curdes.shape[fshape].height;
             }
-            c->elastic = 0;
             rc = genshape(c->width, c->height, &(c->chars), &(c->mbcs));
             if (rc) {
                 return RC_ABORT;
diff --git a/src/parser.y b/src/parser.y
index 7c54018..4e8fc4e 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -361,7 +361,9 @@ slist_entry: SHAPE shape_def
                 shape_name[$1], (int) $2.width, (int) $2.height);
 
         if (isempty (curdes.shape + $1)) {
+            int elastic = curdes.shape[$1].elastic; /* keep flag if the ELASTIC block came first */
             curdes.shape[$1] = $2;
+            curdes.shape[$1].elastic = elastic;
             if (!isdeepempty(&($2))) {
                 ++(bison_args->num_shapespec);
             }
-- 
2.43.0


From 3ea4ae80dfd810a70961b90db233938908d73ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:14 +0000
Subject: [PATCH 12/42] fix: keep right padding of 1 when aligning the text to
 the right

---
 src/generate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate.c b/src/generate.c
index 01e268c..73ccad7 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -968,7 +968,7 @@ int output_box(const sentry_t *thebox)
     set_char_at(hfill2, hfill, char_nul);
     hpl = 0;
     hpr = 0;
-    if (hfill == 1) {
+    if (hfill == 1 && opt.design->padding[BRIG] == 0) {
         if (opt.halign == 'r'
                 || opt.design->padding[BLEF] > opt.design->padding[BRIG]) {
             hpl = 1;
-- 
2.43.0


From d35d6e4b8a6874e6116893dc97ae0f5d85635b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 13/42] fix: indentation doubled when removing a box from lines
 without a west shape

---
 src/remove.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index 8391ba7..872ccde 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1026,8 +1026,8 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
                 (int) input.indent);
 
         bxstr_t *temp2 = bxs_substr(org_line, s_idx, e_idx);
-        if (opt.indentmode == 'b' || opt.indentmode == '\0') {
-            /* restore indentation */
+        if (ctx->body[body_line_idx].west_quality > 0 && (opt.indentmode == 'b' || opt.indentmode == '\0')) {
+            /* restore indentation (lines without a west shape still have theirs) */
             bxstr_t *temp = bxs_prepend_spaces(temp2, input.indent);
             free_line_text(input.lines + input_line_idx);
             input.lines[input_line_idx].text = temp;
-- 
2.43.0


From c008211f785f7d83e6ccc55fb698ba6b987b3daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 14/42] fix: size, padding and kill-blank default of the wrong
 design used when autodetecting the design

---
 src/boxes.c  | 23 +++++++++++++++++++----
 src/remove.c |  8 +++++---
 src/remove.h |  7 +++++++
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 47c1868..cdd3b10 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -284,6 +284,19 @@ static void apply_expected_size()
 
 
 
+/**
+ * Apply the command line options which modify the design to the current design (once per design).
+ */
+static void apply_options_to_design()
+{
+    apply_expected_size();
+    if (opt.indentmode) {
+        opt.design->indentmode = opt.indentmode;
+    }
+}
+
+
+
 /**
  * Read all input lines and store the result in the global `input` structure. May exit the program.
  */
@@ -553,10 +566,7 @@ int main(int argc, char *argv[])
         exit(finish_output(opt.outfile, rc));
     }
 
-    apply_expected_size();
-    if (opt.indentmode) {
-        opt.design->indentmode = opt.indentmode;
-    }
+    apply_options_to_design();
     saved_designwidth = opt.design->minwidth;
     saved_designheight = opt.design->minheight;
 
@@ -570,6 +580,11 @@ int main(int argc, char *argv[])
 
         handle_input();
 
+        if (opt.r && detect_design_if_needed()) {
+            apply_options_to_design();
+            saved_designwidth = opt.design->minwidth;
+            saved_designheight = opt.design->minheight;
+        }
         adjust_size_and_padding();
 
         if (opt.r) {
diff --git a/src/remove.c b/src/remove.c
index 872ccde..dae4dee 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -864,12 +864,15 @@ static void find_vertical_shapes(remove_ctx_t *ctx)
 /**
  * If the user didn't specify a design to remove, autodetect it.
  * Since this requires knowledge of all available designs, the entire config file had to be parsed (earlier).
+ * @return 1 if `opt.design` was changed, 0 otherwise
  */
-static void detect_design_if_needed()
+int detect_design_if_needed()
 {
+    int changed = 0;
     if (opt.design_choice_by_user == 0) {
         design_t *tmp = autodetect_design();
         if (tmp) {
+            changed = opt.design != tmp;
             opt.design = tmp;
             log_debug(__FILE__, MAIN, "Design autodetection: Removing box of design \"%s\".\n", opt.design->name);
         }
@@ -881,6 +884,7 @@ static void detect_design_if_needed()
     else {
         log_debug(__FILE__, MAIN, "Design was chosen by user: %s\n", opt.design->name);
     }
+    return changed;
 }
 
 
@@ -1114,8 +1118,6 @@ static void apply_results_to_input(remove_ctx_t *ctx)
 
 int remove_box()
 {
-    detect_design_if_needed();
-
     remove_ctx_t *ctx = (remove_ctx_t *) calloc(1, sizeof(remove_ctx_t));
     ctx->empty_side[BTOP] = empty_side(opt.design->shape, BTOP);
     ctx->empty_side[BRIG] = empty_side(opt.design->shape, BRIG);
diff --git a/src/remove.h b/src/remove.h
index c0126f4..ae32b8b 100644
--- a/src/remove.h
+++ b/src/remove.h
@@ -52,6 +52,13 @@ typedef struct _shape_line_ctx_t {
 
 
 
+/**
+ * If the user didn't specify a design to remove, autodetect it. May exit the program.
+ * @return 1 if `opt.design` was changed, 0 otherwise
+ */
+int detect_design_if_needed();
+
+
 /**
  * Remove box from input.
  * @return == 0: success;
-- 
2.43.0


From 3301139aab0555cb19536def23a54fa72749c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:27 +0000
Subject: [PATCH 15/42] fix: padding lost and box moved when mending with a
 requested box size

---
 src/boxes.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index cdd3b10..e649c62 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -342,6 +342,10 @@ static void adjust_size_and_padding()
         }
     }
 
+    if (opt.r) {
+        return;   /* the old box is removed using the full padding, no matter how big the new box will be */
+    }
+
     size_t pad = opt.design->padding[BTOP] + opt.design->padding[BBOT];
     if (pad > 0) {
         pad += input.num_lines;
-- 
2.43.0


From 9487364a82ab28f6ec10baabe2e02ab924c66bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 16/42] fix: box grows with each mending if it contains a blank
 line

---
 src/remove.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index dae4dee..623b74d 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1190,7 +1190,14 @@ void output_input(const int trim_only)
         if (input.lines[j].text == NULL) {
             continue;
         }
-        bxstr_t *temp = bxs_rtrim(input.lines[j].text);
+        bxstr_t *temp = NULL;
+        if (trim_only && bxs_is_blank(input.lines[j].text)) {
+            /* the room inside the old box must not determine the width of the new one */
+            temp = bxs_substr(input.lines[j].text, 0, input.lines[j].text->first_char[0]);
+        }
+        else {
+            temp = bxs_rtrim(input.lines[j].text);
+        }
         bxs_free(input.lines[j].text);
         input.lines[j].text = temp;
         if (trim_only) {
-- 
2.43.0


From a182e4c78492609972993f3c685f09e1ec872570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:53 +0000
Subject: [PATCH 17/42] fix: vertical padding accumulates when mending a box
 whose top or bottom is open

---
 src/remove.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index 623b74d..30d0036 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1135,6 +1135,10 @@ int remove_box()
     }
 
     if (ctx->empty_side[BTOP]) {
+        if (opt.mend > 0) {
+            /* blank lines above are the padding, which will be added again */
+            ctx->top_start_idx -= BMIN(ctx->top_start_idx, (size_t) BMAX(opt.design->padding[BTOP], 0));
+        }
         ctx->top_end_idx = ctx->top_start_idx;
     }
     else {
@@ -1145,6 +1149,10 @@ int remove_box()
 
     ctx->bottom_end_idx = find_last_line() + 1;
     if (ctx->empty_side[BBOT]) {
+        if (opt.mend > 0) {
+            ctx->bottom_end_idx += BMIN(input.num_lines - ctx->bottom_end_idx,
+                    (size_t) BMAX(opt.design->padding[BBOT], 0));
+        }
         ctx->bottom_start_idx = ctx->bottom_end_idx;
     }
     else {
-- 
2.43.0


From 44d61325f474a409df9a8ea553374d65317597cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:29 +0000
Subject: [PATCH 18/42] fix: left padding not removed when blank lines of a box
 with an open left side were trimmed

---
 src/remove.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 30d0036..30f4db2 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1095,10 +1095,13 @@ static void apply_results_to_input(remove_ctx_t *ctx)
         if (input.lines[j].text->num_columns > input.maxline) {
             input.maxline = input.lines[j].text->num_columns;
         }
-        if (input.lines[j].text->indent < input.indent) {
+        if (input.lines[j].text->indent < input.indent && !empty_line(input.lines + j)) {
             input.indent = input.lines[j].text->indent;
         }
     }
+    if (input.indent == SIZE_MAX) {
+        input.indent = 0;   /* only blank lines */
+    }
     if (ctx->empty_side[BLEF]) {
         /* If the side were not open, default padding would have been removed when the side was removed. */
         remove_default_padding(ctx, BMIN((int) input.indent, opt.design->padding[BLEF]));
-- 
2.43.0


From 291b6153a7356a89805cac8572e8f3ecb2f5dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 19/42] fix: text lost when removing a box from a line whose
 west shape is missing

---
 src/remove.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 30f4db2..a4c5467 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -736,7 +736,7 @@ static void match_vertical_side(remove_ctx_t *ctx, int vside, shape_line_ctx_t *
             shape_text = NULL;
 
             if ((p == NULL)
-                    || (vside == BLEF && ((size_t) (p - input_line) > input_indent + (max_quality - quality)))
+                    || (vside == BLEF && ((size_t) (p - input_line) > input_indent))
                     || (vside == BRIG && ((size_t) (p - input_line) < input_length - input_trailing - quality))) {
                 shape_text = shorten(*shape_line_ctx, &quality, vside == BLEF, 1, 1);
                 to_free = shape_text;
-- 
2.43.0


From 3fdfce936500ab416f8d915e18f44b1f24aa04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:33 +0000
Subject: [PATCH 20/42] fix: escape sequences printed with --no-color when
 removing a box

---
 src/remove.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index a4c5467..f9a984d 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1240,7 +1240,9 @@ void output_input(const int trim_only)
             indent = 0;
         }
 
-        char *outtext = u32_strconv_to_output(bxs_first_char_ptr(input.lines[j].text, indent));
+        bxstr_t *unindented = bxs_from_unicode(bxs_first_char_ptr(input.lines[j].text, indent));
+        char *outtext = bxs_to_output(unindented);    /* respects --no-color */
+        bxs_free(unindented);
         fprintf(opt.outfile, "%s%s%s", indentspc, outtext,
                 (input.final_newline || j < input.num_lines - 1 ? opt.eol : ""));
         BFREE(outtext);
-- 
2.43.0


From 703486f6881b2354c84da3c3299720863ffece28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:49 +0000
Subject: [PATCH 21/42] fix: do not fail if the terminal type is unknown

---
 src/boxes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index e649c62..96553fa 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -455,7 +455,8 @@ static int terminal_has_colors()
         result = 1; /* On Windows, we always assume color capability. */
         UNUSED(termtype);
     #else
-        if (termtype != NULL && setupterm(termtype, STDOUT_FILENO, NULL) == OK && tigetnum("colors") >= 8) {
+        int errret = 0;     /* without it, setupterm() exits the program if it doesn't know the terminal */
+        if (termtype != NULL && setupterm(termtype, STDOUT_FILENO, &errret) == OK && tigetnum("colors") >= 8) {
             result = 1;
         }
     #endif
-- 
2.43.0


From a77f3bd4503fbac03ff95d49240bfe2ebf980c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 22/42] fix: wrong characters skipped after an ESC that does
 not begin a colour sequence

---
 src/unicode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/unicode.c b/src/unicode.c
index a3b2b7d..aa80ea1 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -180,11 +180,15 @@ uint32_t *advance_next32(const uint32_t *s, size_t *invis)
             /* Found '[' char after ESC. A CSI sequence has started. */
             (*invis)++;
             ansipos++;
-        } else if (ansipos == 1 && c >= 0x40 && c <= 0x5f) { /* between '@' and '_' (mostly uppercase letters) */
+        } else if (ansipos == 1 && c >= 0x30 && c <= 0x7e) { /* includes private ones, such as '7' (save cursor) */
             /* Found a byte designating the end of a two-byte escape sequence */
             (*invis)++;
             ansipos = 0;
             break;
+        } else if (ansipos == 1) {
+            /* Not an escape sequence, so the character after the ESC is not part of what we skip */
+            rest--;
+            break;
         } else if (ansipos == 2) {
             /* Inside CSI sequence - Keep counting chars as invisible */
             (*invis)++;
-- 
2.43.0


From 3812fdf91e1058eeae3bafe4be2ba572358b48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:23 +0000
Subject: [PATCH 23/42] fix: box too wide when substitution rules shorten the
 text

---
 src/input.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index 69cec56..f0ecb48 100644
--- a/src/input.c
+++ b/src/input.c
@@ -163,8 +163,6 @@ int apply_substitutions(input_t *result, const int mode)
                 return 1;
             }
 
-            analyze_line_ascii(result, result->lines + k);   /* update maxline value */
-
             if (is_debug_logging(REGEXP)) {
                 char *outtext2 = bxs_to_output(result->lines[k].text);
                 log_debug(__FILE__, REGEXP, "result->lines[%d] == {%d, \"%s\"}\n",
@@ -175,6 +173,16 @@ int apply_substitutions(input_t *result, const int mode)
         opt.design->current_rule = NULL;
     }
 
+    /*
+     *  The lines may be longer or shorter now -> recalculate result->maxline.
+     */
+    if (num_rules > 0) {
+        result->maxline = 0;
+        for (k = 0; k < result->num_lines; ++k) {
+            analyze_line_ascii(result, result->lines + k);
+        }
+    }
+
     /*
      *  If text indentation was part of the lines processed, indentation
      *  may now be different -> recalculate result->indent.
-- 
2.43.0


From bf65eed2056f78c1bc640b74003c6830af37e2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 24/42] fix: characters garbled by case conversion in
 substitutions

---
 src/regulex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/regulex.c b/src/regulex.c
index e4b204d..946a363 100644
--- a/src/regulex.c
+++ b/src/regulex.c
@@ -54,7 +54,7 @@ pcre2_code *u32_compile_pattern(uint32_t *pattern)
     pcre2_code *re = pcre2_compile(
             (PCRE2_SPTR) pattern,    /* the pattern */
             PCRE2_ZERO_TERMINATED,   /* indicates pattern is zero-terminated */
-            0,                       /* default options */
+            PCRE2_UTF,               /* the 32-bit units are Unicode characters */
             &errornumber,
             &erroroffset,
             NULL);                   /* use default compile context */
-- 
2.43.0


From 15e89cd369024bc586b8f2f0b1d1ad807be11d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 25/42] fix: value of the indent keyword only recognized in
 lower case

---
 src/parsecode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index 6724a7f..da20204 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -19,6 +19,7 @@
 
 #include "config.h"
 
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -766,7 +767,7 @@ int action_record_keyword(pass_to_bison *bison_args, char *keyword, bxstr_t *val
     else if (strcasecmp(keyword, "indent") == 0) {
         char *val = value->ascii;
         if (strcasecmp(val, "text") == 0 || strcasecmp(val, "box") == 0 || strcasecmp(val, "none") == 0) {
-            curdes.indentmode = val[0];
+            curdes.indentmode = tolower(val[0]);
         }
         else {
             yyerror(bison_args, "indent keyword must be followed by \"text\", \"box\", or \"none\"");
-- 
2.43.0


From 337acd54b891a36cb5b852fab88f674a3a8f5d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:02 +0000
Subject: [PATCH 26/42] fix: syntax error reported if a config file ends with a
 comment line that has no line end

---
 src/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index e8f14f1..08255a6 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -430,7 +430,7 @@ PFILENAME [^\r\n]+
 }
 
 
-<INITIAL,BOX,SHAPES,ELASTIC>#.*$ {
+<INITIAL,BOX,SHAPES,ELASTIC>#.* {
     /* ignore comments */
     log_debug(__FILE__, LEXER, "COMMENT: %s\n", yytext + 1);
 }
-- 
2.43.0


From aac6f9f3219e612c3e7427eafc67ef8ad4ab4039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:07 +0000
Subject: [PATCH 27/42] fix: designs without a SAMPLE block accepted if they
 have two SHAPES blocks

---
 src/parsecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsecode.c b/src/parsecode.c
index da20204..684f88b 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -695,7 +695,7 @@ int action_add_design(pass_to_bison *bison_args, char *design_primary_name, char
         yyerror(bison_args, "box design name differs at BOX and END");
         return RC_ERROR;
     }
-    if (bison_args->num_mandatory < 3) {
+    if (bison_args->num_mandatory < 3 || curdes.sample == NULL) {
         yyerror(bison_args, "entries SAMPLE, SHAPES, and ELASTIC are mandatory");
         return RC_ERROR;
     }
-- 
2.43.0


From bbef79b4017e382bd69f6379bdf30eeb4d341f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 28/42] fix: strings not recognized in the last line of a
 config file that has no line end

---
 src/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index 08255a6..a961482 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -151,7 +151,7 @@ PFILENAME [^\r\n]+
 }
 
 
-<BOX,SHAPES>{SDELIM}.*$ {
+<BOX,SHAPES>{SDELIM}.* {
     /*
      * Strings  --  first match everything starting from a potential string delimiter until the end of the line. We
      * will give back what we don't need and also detect unterminated strings. Strings always end on the same line.
-- 
2.43.0


From ffe822a6945c8575b0136b6aca38e59fea9fd185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:29 +0000
Subject: [PATCH 29/42] fix: crash if a string in a config file contains a
 control character

---
 src/lexer.l | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lexer.l b/src/lexer.l
index a961482..f148580 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -188,6 +188,10 @@ PFILENAME [^\r\n]+
             yylval->s = bxs_from_unicode(utf8);
             BFREE(utf8);
             BFREE(str);
+            if (yylval->s == NULL) {
+                yyerror(NULL, "invalid character in string");
+                return YUNREC;
+            }
             return STRING;
         }
         --rest_len;
@@ -216,6 +220,10 @@ PFILENAME [^\r\n]+
     bxs_free(bxstr);
 
     BEGIN(INITIAL);
+    if (yylval->s == NULL) {
+        yyerror(NULL, "invalid character in path of parent config file");
+        return YUNREC;
+    }
     report_state("FILENAM", bxs_to_output(yylval->s), "INITIAL");
     return FILENAME;
 }
@@ -404,8 +412,9 @@ PFILENAME [^\r\n]+
     uint32_t *utf8 = u32_strconv_from_arg(yytext, CONFIG_FILE_ENCODING);
     yylval->s = bxs_from_unicode(utf8);
     if (yylval->s == NULL) {
-        perror (PROJECT);
-        exit (EXIT_FAILURE);
+        yyerror(NULL, "invalid character in word");
+        BFREE(utf8);
+        return YUNREC;
     }
     if (is_debug_logging(LEXER)) {
         char *out_utf8 = u32_strconv_to_output(utf8);
-- 
2.43.0


From acee7c400cb1e5bdeb1baf1fb86951789654bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:15 +0000
Subject: [PATCH 30/42] fix: abort with exit code 2 if a parent config is a
 directory

---
 src/discovery.c | 2 +-
 src/discovery.h | 8 ++++++++
 src/parsecode.c | 9 ++++-----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/discovery.c b/src/discovery.c
index e92e5dd..142d1b2 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -39,7 +39,7 @@
 
 
 
-static int can_read_file(char *filename_utf8)
+int can_read_file(char *filename_utf8)
 {
     log_debug(__FILE__, DISCOVERY, "can_read_file(%s) - enter\n", filename_utf8);
 
diff --git a/src/discovery.h b/src/discovery.h
index bd33434..065dfa8 100644
--- a/src/discovery.h
+++ b/src/discovery.h
@@ -26,6 +26,14 @@
 bxstr_t *discover_config_file(const int global_only);
 
 
+/**
+ * Determine if the given path refers to a file (not a directory) that can be read.
+ * @param filename_utf8 the path in UTF-8
+ * @return flag: 1 if the file can be read, 0 otherwise
+ */
+int can_read_file(char *filename_utf8);
+
+
 #endif /* BOXES_DISCOVERY_H */
 
 /* vim: set cindent sw=4: */
diff --git a/src/parsecode.c b/src/parsecode.c
index 684f88b..af8a09f 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -652,15 +652,14 @@ int action_parent_config(pass_to_bison *bison_args, bxstr_t *filepath)
         return RC_ERROR;
     }
     else {
-        FILE *f = bx_fopens(filepath, "r");
-        if (f == NULL) {
+        char *path_utf8 = u32_strconv_to_arg(filepath->memory, "UTF-8");
+        int readable = can_read_file(path_utf8);
+        BFREE(path_utf8);
+        if (!readable) {
             bison_args->skipping = 1;
             yyerror(bison_args, "parent config file not found: %s", bxs_to_output(filepath));
             return RC_ERROR;
         }
-        else {
-            fclose(f);
-        }
     }
     if (is_debug_logging(PARSER)) {
         char *out_filepath = bxs_to_output(filepath);
-- 
2.43.0


From 72c85925b79d808c542138442869463696e94cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:14 +0000
Subject: [PATCH 31/42] fix: malformed arguments of -i, -k, -p, -s and -t
 accepted

---
 src/cmdline.c | 56 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 2f98398..af7ec7d 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -20,6 +20,7 @@
 #include "config.h"
 #include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include <strings.h>
@@ -309,6 +310,10 @@ static int eol_override(opt_t *result, char *optarg)
 static int indentation_mode(opt_t *result, char *optarg)
 {
     size_t optlen = strlen(optarg);
+    if (optlen == 0) {
+        bx_fprintf(stderr, "%s: invalid indentation mode\n", PROJECT);
+        return 1;
+    }
     if (optlen <= 3 && !strncasecmp("box", optarg, optlen)) {
         result->indentmode = 'b';
     }
@@ -335,17 +340,17 @@ static int indentation_mode(opt_t *result, char *optarg)
  */
 static int killblank(opt_t *result, char *optarg)
 {
+    int value = 0;
+    if (strisyes(optarg)) {
+        value = 1;
+    }
+    else if (!strisno(optarg)) {
+        bx_fprintf(stderr, "%s: -k: invalid parameter\n", PROJECT);
+        return 1;
+    }
+
     if (result->killblank == -1) {
-        if (strisyes(optarg)) {
-            result->killblank = 1;
-        }
-        else if (strisno(optarg)) {
-            result->killblank = 0;
-        }
-        else {
-            bx_fprintf(stderr, "%s: -k: invalid parameter\n", PROJECT);
-            return 1;
-        }
+        result->killblank = value;
     }
     return 0;
 }
@@ -365,17 +370,18 @@ static int padding(opt_t *result, char *optarg)
 
     while (*p) {
         errfl = 0;
-        if (p[1] == '\0') {
+        if (p[1] < '0' || p[1] > '9') {
             errfl = 1;
             break;
         }
         char c = *p;
         errno = 0;
-        int size = (int) strtol(p + 1, &p, 10);
-        if (errno || size < 0) {
+        long value = strtol(p + 1, &p, 10);
+        if (errno || value < 0 || value > INT_MAX) {
             errfl = 1;
             break;
         }
+        int size = (int) value;
         switch (c) {
             case 'a': case 'A':
                 result->padding[BTOP] = size;
@@ -451,17 +457,29 @@ static int size_of_box(opt_t *result, char *optarg)
         *p = '\0';
     }
     errno = 0;
+    int errfl = 0;
+    char *end = NULL;
+    long width = 0;
+    long height = 0;
     if (optarg != p) {
-        result->reqwidth = strtol(optarg, NULL, 10);
+        width = strtol(optarg, &end, 10);
+        errfl = *end != '\0';
     }
     if (p) {
-        result->reqheight = strtol(p + 1, NULL, 10);
+        height = strtol(p + 1, &end, 10);
+        errfl = errfl || *end != '\0';
         *p = 'x';
     }
-    if (errno || (result->reqwidth == 0 && result->reqheight == 0) || result->reqwidth < 0 || result->reqheight < 0) {
+    if (errno || errfl || (width == 0 && height == 0) || width < 0 || height < 0) {
         bx_fprintf(stderr, "%s: invalid box size specification -- %s\n", PROJECT, optarg);
         return 1;
     }
+    if (optarg != p) {
+        result->reqwidth = width;
+    }
+    if (p) {
+        result->reqheight = height;
+    }
     return 0;
 }
 
@@ -524,12 +542,12 @@ static int debug_areas(opt_t *result, char *optarg)
 static int tab_handling(opt_t *result, char *optarg)
 {
     char *p;
-    int width = (int) strtol(optarg, &p, 10);
+    long width = strtol(optarg, &p, 10);
     if (width < 1 || width > MAX_TABSTOP) {
-        bx_fprintf(stderr, "%s: invalid tab stop distance -- %d\n", PROJECT, width);
+        bx_fprintf(stderr, "%s: invalid tab stop distance -- %ld\n", PROJECT, width);
         return 1;
     }
-    result->tabstop = width;
+    result->tabstop = (int) width;
 
     int errfl = 0;
     if (*p != '\0') {
-- 
2.43.0


From 51d7d81c1b5b15625ad4ee8c50afeeb1e21283ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:46 +0000
Subject: [PATCH 32/42] fix: heap overflow if a string or comment line in a
 config file is longer than 16384 bytes

---
 src/lexer.l | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index f148580..3e73d6e 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -468,7 +468,15 @@ void inflate_inbuf(void *yyscanner, const bxstr_t *configfile)
     BFREE(utf8);
     struct yyguts_t *yyg = (struct yyguts_t *) yyscanner;
     yy_delete_buffer(YY_CURRENT_BUFFER, yyscanner);
-    yy_switch_to_buffer (yy_create_buffer(yyin, sinf.st_size+10, yyscanner), yyscanner);
+    const size_t bufsize = sinf.st_size + 10;
+    yy_switch_to_buffer (yy_create_buffer(yyin, bufsize, yyscanner), yyscanner);
+
+    /* Since we use REJECT, flex records one state per character of a token, but does not grow the array it uses. */
+    yyg->yy_state_buf = (yy_state_type *) yyrealloc(yyg->yy_state_buf, (bufsize + 2) * sizeof(yy_state_type), yyscanner);
+    if (yyg->yy_state_buf == NULL) {
+        perror (PROJECT);
+        exit (EXIT_FAILURE);
+    }
     BEGIN(INITIAL);
 }
 
-- 
2.43.0


From 91536bd29e74479befcab9807c40ad3abe791e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 33/42] fix: abort with exit code 2 if the config file is a
 pipe

---
 src/lexer.l | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index 3e73d6e..020b621 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -69,6 +69,7 @@ void inflate_inbuf(void *yyscanner, const bxstr_t *configfile);
 #include "unicode.h"
 
 
+#define INBUF_SIZE_UNKNOWN (1024 * 1024) /* lexer buffer size when the size of the config file is not known */
 #define LEX_MAX_WARN 3                   /* number of lex errors per design */
 
 static void report_state_char(char *symbol, char c, char *expected_state_str);
@@ -468,7 +469,8 @@ void inflate_inbuf(void *yyscanner, const bxstr_t *configfile)
     BFREE(utf8);
     struct yyguts_t *yyg = (struct yyguts_t *) yyscanner;
     yy_delete_buffer(YY_CURRENT_BUFFER, yyscanner);
-    const size_t bufsize = sinf.st_size + 10;
+    /* The buffer must hold the longest token. For pipes and the like, we don't know the size of the file. */
+    const size_t bufsize = S_ISREG(sinf.st_mode) ? (size_t) sinf.st_size + 10 : INBUF_SIZE_UNKNOWN;
     yy_switch_to_buffer (yy_create_buffer(yyin, bufsize, yyscanner), yyscanner);
 
     /* Since we use REJECT, flex records one state per character of a token, but does not grow the array it uses. */
-- 
2.43.0


From 3c87130315f51a28d4c6d50bf3785b94948f2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:17 +0000
Subject: [PATCH 34/42] fix: buffer overflow when debug messages are longer
 than 1023 characters

---
 src/logging.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index cc3d30d..2089964 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -118,14 +118,41 @@ int is_debug_activated()
 
 
 
+/**
+ * Format a message of any length.
+ * @param format the format string
+ * @param va the arguments for the format string
+ * @returns the formatted message, for which new memory is allocated; or NULL if that did not work
+ */
+static char *format_message(const char *format, va_list va)
+{
+    va_list va_copied;
+    va_copy(va_copied, va);
+    int len = vsnprintf(NULL, 0, format, va_copied);
+    va_end(va_copied);
+    if (len < 0) {
+        return NULL;
+    }
+
+    char *msg = (char *) malloc((size_t) len + 1);
+    if (msg != NULL) {
+        vsnprintf(msg, (size_t) len + 1, format, va);
+    }
+    return msg;
+}
+
+
+
 void log_debug(const char *module, log_area_t log_area, const char *format, ...)
 {
     if (is_debug_logging(log_area)) {
-        char *msg = (char *) malloc(1024);
         va_list va;
         va_start(va, format);
-        vsprintf(msg, format, va);
+        char *msg = format_message(format, va);
         va_end(va);
+        if (msg == NULL) {
+            return;
+        }
 
         char *short_module = shorten_module(module);
         bx_fprintf(stderr, "[%-9s] %s", short_module, msg);
@@ -139,11 +166,13 @@ void log_debug(const char *module, log_area_t log_area, const char *format, ...)
 void log_debug_cont(log_area_t log_area, const char *format, ...)
 {
     if (is_debug_logging(log_area)) {
-        char *msg = (char *) malloc(1024);
         va_list va;
         va_start(va, format);
-        vsprintf(msg, format, va);
+        char *msg = format_message(format, va);
         va_end(va);
+        if (msg == NULL) {
+            return;
+        }
 
         bx_fprintf(stderr, "%s", msg);
         BFREE(msg);
-- 
2.43.0


From 17377ceb12d6cb4ce6e7a587e9f0f10e5ccbee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 35/42] fix: invalid memory access if the SAMPLE block of a
 design contains a NUL character

---
 src/lexer.l | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lexer.l b/src/lexer.l
index 020b621..610e7e3 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -265,6 +265,14 @@ PFILENAME [^\r\n]+
     len = p - yytext;                    /* yyless(n): push back all but the first n */
     yyless (len);                        /* allow the lexer to return YENDSAMPLE */
 
+    if (strlen(sample) < len) {
+        if ((yyextra->yyerrcnt)++ < 5) {
+            yyerror(NULL, "invalid character in SAMPLE block");
+        }
+        BFREE(sample);
+        return YUNREC;
+    }
+
     sample[len] = '\n';                  /* replace 'e' with newline */
     btrim(sample, &len);
     if (len > 0) {
-- 
2.43.0


From 5147632e24c282a1a1a4f2c1d32548bb3793e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:26 +0000
Subject: [PATCH 36/42] fix: invalid memory access if a string in a config file
 contains a NUL character

---
 src/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index 610e7e3..aaca750 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -157,7 +157,6 @@ PFILENAME [^\r\n]+
      * Strings  --  first match everything starting from a potential string delimiter until the end of the line. We
      * will give back what we don't need and also detect unterminated strings. Strings always end on the same line.
      */
-    int rest_len = yyleng - 1;           /* length of string pointed to by p */
     int qcnt = 0;                        /* esc char count in current string */
 
     if (yytext[0] != yyextra->sdel) {
@@ -170,6 +169,7 @@ PFILENAME [^\r\n]+
         exit (EXIT_FAILURE);
     }
     char *p = str;
+    int rest_len = strlen(str);          /* length of string pointed to by p (not yyleng, as there may be NUL characters) */
 
     while (*p) {
         if (*p == yyextra->sesc) {
-- 
2.43.0


From 25ab26b432a26457ef8b35e0603b1d66411ca485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 37/42] fix: message missing if an illegal character cannot be
 shown in the current locale

---
 src/bxstring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index aac647d..364601f 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -50,7 +50,8 @@ bxstr_t *bxs_from_ascii(char *pAscii)
     size_t error_pos = 0;
     if (!bxs_valid_anywhere(result, &error_pos)) {
         ucs4_t c = result->memory[error_pos];
-        bx_fprintf(stderr, "%s: illegal character '%lc' (%#010x) encountered in string\n", PROJECT, c, (int) c);
+        bx_fprintf(stderr, "%s: illegal character '%lc' (%#010x) encountered in string\n", PROJECT,
+                    c < 0x80 ? c : '?', (int) c);
         bxs_free(result);
         return NULL;
     }
@@ -118,7 +119,8 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
         }
 
         if (!is_allowed_anywhere(c)) { /* currently used for config only, reconsider when using on input data */
-            bx_fprintf(stderr, "%s: illegal character '%lc' (%#010x) encountered in string\n", PROJECT, c, (int) c);
+            bx_fprintf(stderr, "%s: illegal character '%lc' (%#010x) encountered in string\n", PROJECT,
+                    c < 0x80 ? c : '?', (int) c);
             bxs_free(result);
             return NULL;
         }
-- 
2.43.0


From 425fe03c7d62a64e0e6e88708737512c94cff6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:19 +0000
Subject: [PATCH 38/42] fix: exit with an error when input text cannot be
 converted from its encoding

With -n naming a stateful encoding such as ISO-2022-JP, a malformed escape
sequence in the input made the conversion fail, and the resulting NULL was
dereferenced.
---
 src/input.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input.c b/src/input.c
index f0ecb48..2d5f3fb 100644
--- a/src/input.c
+++ b/src/input.c
@@ -247,6 +247,10 @@ input_t *read_all_input()
         memset(result->lines + result->num_lines, 0, sizeof(line_t));
 
         uint32_t *mbtemp = u32_strconv_from_input(buf);
+        if (mbtemp == NULL) {
+            BFREE(result->lines);
+            return NULL;
+        }
         size_t len_chars = u32_strlen(mbtemp);
         result->final_newline = has_linebreak(mbtemp, len_chars);
         trim_trailing_ws_carefully(mbtemp, &len_chars);
-- 
2.43.0


From a919d9faeda9366b801aaff478c184d0908999cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:31 +0000
Subject: [PATCH 39/42] fix: keep a color reset when trimming the blanks in
 front of it

When a colored line ended with blanks followed by the reset sequence, the
reset was cut off along with the blanks, so that the color carried over into
the rest of the box and into whatever is printed afterwards.
---
 src/bxstring.c |  2 +-
 src/tools.c    | 34 ++++++++++++++++++++++++++++++++--
 src/tools.h    | 10 ++++++++++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 364601f..d90ce46 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -471,7 +471,7 @@ bxstr_t *bxs_rtrim(bxstr_t *pString)
     }
 
     uint32_t *s = u32_strdup(pString->memory);
-    set_char_at(s, pString->first_char[pString->num_chars_visible - pString->trailing], char_nul);
+    cut_off32(s, pString->first_char[pString->num_chars_visible - pString->trailing]);
     bxstr_t *result = bxs_from_unicode(s);
     BFREE(s);
     return result;
diff --git a/src/tools.c b/src/tools.c
index 76c475c..53e46b3 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -334,8 +334,38 @@ void btrim32(uint32_t *text, size_t *len)
         }
     }
 
-    set_char_at(text, (size_t) (last_char_pos + 1), char_nul);
-    *len = (size_t) (last_char_pos + 1);
+    *len = cut_off32(text, (size_t) (last_char_pos + 1));
+}
+
+
+
+size_t cut_off32(uint32_t *text, size_t pos)
+{
+    int attributes_set = 0;
+    const uint32_t *tail_reset = NULL;
+    size_t reset_len = 0;
+
+    size_t step_invis = 0;
+    for (const uint32_t *rest = text; rest[0] != char_nul; ) {
+        const uint32_t *next = advance_next32(rest, &step_invis);
+        if (step_invis > 0) {
+            if (rest < text + pos) {
+                attributes_set = !is_csi_reset(rest);
+            }
+            else if (is_csi_reset(rest)) {
+                tail_reset = rest;
+                reset_len = step_invis;
+            }
+        }
+        rest = next;
+    }
+
+    if (attributes_set && tail_reset != NULL) {
+        u32_move(text + pos, tail_reset, reset_len);
+        pos += reset_len;
+    }
+    set_char_at(text, pos, char_nul);
+    return pos;
 }
 
 
diff --git a/src/tools.h b/src/tools.h
index 7952778..7ab8ea8 100644
--- a/src/tools.h
+++ b/src/tools.h
@@ -166,6 +166,16 @@ size_t count_invisible_chars(const uint32_t *s, size_t *num_esc, char **ascii, s
 int is_csi_reset(const uint32_t *csi);
 
 
+/**
+ * Cut off the given text. If the remaining text ends with text attributes (colors) set by an escape sequence, and they
+ * are reset in the part which gets cut off, then the reset sequence is kept.
+ * @param text the zero-terminated UTF-32 string, which is modified
+ * @param pos the index of the first character to cut off
+ * @return the new length of `text` in characters
+ */
+size_t cut_off32(uint32_t *text, size_t pos);
+
+
 /**
  * Determine if the given `array` contains the given string (case-insensitive!).
  * @param array an array of strings to search
-- 
2.43.0


From db3ffe1387515a3e34df5869d05f19449b8ba8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:05 +0000
Subject: [PATCH 40/42] fix: blank lines do not count for the indentation when
 removing a box

---
 src/input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index 2d5f3fb..95ebb23 100644
--- a/src/input.c
+++ b/src/input.c
@@ -54,7 +54,7 @@ static int has_linebreak(const uint32_t *s, const int len)
 
 
 /**
- * Determine indentation of given lines in spaces. Lines are assumed to be free of trailing whitespace.
+ * Determine indentation of given lines in spaces. Blank lines do not count, whether or not they contain white space.
  * @param lines the lines to examine
  * @param lines_size number of lines to examine
  * @returns >= 0: indentation in spaces; < 0: error
@@ -73,7 +73,7 @@ static int get_indent(const line_t *lines, const size_t lines_size)
     }
 
     for (size_t j = 0; j < lines_size; ++j) {
-        if (lines[j].text->num_columns > 0) {
+        if (!bxs_is_blank(lines[j].text)) {
             nonblank = 1;
             size_t ispc = lines[j].text->indent;
             if ((int) ispc < res) {
-- 
2.43.0


From 6ae0f474a33a33d505433d6de32fa808efea7af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:21 +0000
Subject: [PATCH 41/42] fix: a byte order mark directly in front of the first
 word of a config file was taken as part of it

---
 src/lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index aaca750..7dace1d 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -111,7 +111,7 @@ static int change_string_delimiters(pass_to_flex *extra, char *delim_expr);
 PBOM      \xEF\xBB\xBF
 U2A       [\xC2-\xDF][\x80-\xBF]
 U2B       \xE0[\xA0-\xBF][\x80-\xBF]
-U3A       [\xE1-\xEC\xEE\xEF][\x80-\xBF]{2}
+U3A       [\xE1-\xEC\xEE][\x80-\xBF]{2}|\xEF(?:[\x80-\xBA\xBC-\xBF][\x80-\xBF]|\xBB[\x80-\xBE])
 U3B       \xED[\x80-\x9F][\x80-\xBF]
 U4A       \xF0[\x90-\xBF][\x80-\xBF]{2}
 U4B       [\xF1-\xF3][\x80-\xBF]{3}
-- 
2.43.0


From 75f9ec691f9c009f993d0cd1a344d716a193071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:56 +0000
Subject: [PATCH 42/42] fix: do not read before the start of an empty line when
 removing a box

---
 src/input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index 95ebb23..d44b011 100644
--- a/src/input.c
+++ b/src/input.c
@@ -207,11 +207,11 @@ static void trim_trailing_ws_carefully(uint32_t *mbtemp, size_t *len_chars)
 {
     if (opt.r) {
         /* remove only trailing line breaks, but keep the space */
-        if (is_char_at(mbtemp, *len_chars - 1, char_newline)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_newline)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-        if (is_char_at(mbtemp, *len_chars - 1, char_cr)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_cr)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-- 
2.43.0

