From 3a8f9dc03eee017702eaeab00fc416e1b24dcd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 01/16] fix: terminate the decoded string printed by echo

---
 src/src/commands/ush_cmd_echo.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/commands/ush_cmd_echo.c b/src/src/commands/ush_cmd_echo.c
index fe336d8..d5c8308 100644
--- a/src/src/commands/ush_cmd_echo.c
+++ b/src/src/commands/ush_cmd_echo.c
@@ -62,6 +62,8 @@ void ush_buildin_cmd_echo_callback(struct ush_object *self, struct ush_file_desc
                 char *data_in = argv[1];
                 size_t max_size = strlen(data_in);
                 data_size = ush_utils_decode_ascii(data_in, (uint8_t*)data_in, max_size);
+                /* decoding could shorten the string, so terminate it again */
+                data_in[data_size] = '\0';
                 data = (uint8_t*)data_in;
         }
                 /* fallthrough */
-- 
2.43.0


From 90d4db76225aa31a89c00bd835e5745969d5df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 02/16] fix: start every initialization with an empty command
 list

---
 src/src/ush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/ush.c b/src/src/ush.c
index 0070f6a..44b91f3 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -48,6 +48,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
 
         self->desc = desc;
         self->root = NULL;
+        self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
         ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-- 
2.43.0


From fafdaa05c994ec6e3d2d7f7c3fd7ed2cb6955988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 03/16] fix: leave the node object untouched when mounting
 fails

---
 src/src/ush_node_mount.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index fb0c65e..edf0512 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -37,15 +37,19 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 USH_ASSERT(file_list[i].name != NULL);
         }
 
-        node->file_list = file_list;
-        node->file_list_size = file_list_size;
-        node->path = path;
-
         struct ush_node_object *node_exists = ush_node_get_by_path(self, path);
         if (node_exists != NULL)
                 return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;
 
         struct ush_node_object *node_parent = ush_node_get_parent_by_path(self, path);
+        if ((node_parent == NULL) && (strcmp(path, "/") != 0))
+                return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
+
+        /* node could be already mounted elsewhere, so touch it only on success */
+        node->file_list = file_list;
+        node->file_list_size = file_list_size;
+        node->path = path;
+
         if (node_parent != NULL) {
                 node->next = node_parent->children;
                 node_parent->children = node;
@@ -53,15 +57,11 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 return USH_STATUS_OK;
         }
 
-        if (strcmp(path, "/") == 0) {
-                node->next = NULL;
-                self->root = node;
-                self->current_node = self->root;
-                node->parent = NULL;
-                return USH_STATUS_OK;
-        }
-
-        return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
+        node->next = NULL;
+        self->root = node;
+        self->current_node = self->root;
+        node->parent = NULL;
+        return USH_STATUS_OK;
 }
 
 ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
-- 
2.43.0


From 3261d87ef5eefd9e60be97afeda0904ad31f357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 04/16] fix: leave the unmounted directory when it is the
 current one

---
 src/src/ush_node_mount.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index edf0512..e1f6a23 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -97,6 +97,9 @@ ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
                 } else {
                         prev->next = node->next;
                 }
+                /* unmounted node cannot be the current one any longer */
+                if (self->current_node == node)
+                        self->current_node = parent_node;
                 return USH_STATUS_OK;           
         }
 
-- 
2.43.0


From f3d62a8710d9edf3a211ba4436149a7e8256af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 05/16] fix: autocomplete the zero-ended part of the line only

---
 src/src/ush_autocomp_state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 6a08f00..7648276 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -44,6 +44,8 @@ void ush_autocomp_state_recall_suffix(struct ush_object *self)
 
 void ush_autocomp_state_prepare(struct ush_object *self)
 {
+        /* input could contain embedded zero, autocompletation works on zero-ended string */
+        self->in_pos = strlen(self->desc->input_buffer);
         self->autocomp_input = ush_utils_get_last_arg(self->desc->input_buffer);
         self->state = USH_STATE_AUTOCOMP_CANDIDATES_START;
 }
-- 
2.43.0


From 07e34f585e9a46a7b109991bc5ffacb210be20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 06/16] fix: keep the autocompleted name inside the input
 buffer

---
 src/src/ush_autocomp_state.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 7648276..f969d9d 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -88,7 +88,10 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         break;
                 case 1: {
                         char *suffix = self->autocomp_input + strlen(self->autocomp_input);
-                        strcpy(self->autocomp_input, self->autocomp_candidate_name);
+                        /* candidate name could be longer than the room left in the input buffer */
+                        size_t room = self->desc->input_buffer_size - (size_t)(self->autocomp_input - self->desc->input_buffer);
+                        strncpy(self->autocomp_input, self->autocomp_candidate_name, room - 1);
+                        self->autocomp_input[room - 1] = '\0';
                         self->in_pos = strlen(self->desc->input_buffer);
                         ush_write_pointer(self, suffix, USH_STATE_READ_CHAR);
                         break;
-- 
2.43.0


From 79c125b83a02b69a222e1134421bff646d09aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 07/16] fix: stop extending the autocompleted name when the
 input buffer is full

---
 src/src/ush_autocomp_state.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index f969d9d..d0cb28f 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -76,6 +76,17 @@ void ush_autocomp_state_candidates_process(struct ush_object *self)
         ush_autocomp_process_file_index(self, file);
 }
 
+static void ush_autocomp_optimize_or_finish(struct ush_object *self)
+{
+        /* there is no room for the next char, so finish with the current suffix */
+        if (self->in_pos + 1 >= self->desc->input_buffer_size) {
+                self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                return;
+        }
+
+        ush_autocomp_optimize_continue(self);
+}
+
 void ush_autocomp_state_candidates_finish(struct ush_object *self)
 {
         if (self->autocomp_prev_state == USH_STATE_AUTOCOMP_CANDIDATES_PRINT) {
@@ -98,7 +109,7 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                 }
                 default:
                         self->autocomp_suffix_len = 0;
-                        ush_autocomp_optimize_continue(self);
+                        ush_autocomp_optimize_or_finish(self);
                         break;
                 }
 
@@ -113,7 +124,7 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         return;
                 }
 
-                ush_autocomp_optimize_continue(self);
+                ush_autocomp_optimize_or_finish(self);
         } else {
                 USH_ASSERT(false);
         }
-- 
2.43.0


From bce20e242d904fb5735bd3a7e58073714b83d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:03 +0000
Subject: [PATCH 08/16] fix: reject paths longer than the maximum path length

---
 src/src/ush_node.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index cf7544f..934839a 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -75,6 +75,18 @@ void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, ch
         USH_ASSERT(in_path != NULL);
         USH_ASSERT(out_path != NULL);
 
+        /* paths which don't fit are replaced by the "." which never matches any node */
+        size_t needed_len = strlen(in_path) + 1;
+        if (in_path[0] != '/') {
+                needed_len += strlen(self->current_node->path);
+                if (strcmp(self->current_node->path, "/") != 0)
+                        needed_len++;
+        }
+        if (needed_len > self->desc->path_max_length) {
+                strcpy(out_path, ".");
+                return;
+        }
+
         if (in_path[0] == '/') {
                 strcpy(abs_path, in_path);
         } else {
-- 
2.43.0


From 893f7398a18152b3b30a73e62269d8158a0d2d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:04 +0000
Subject: [PATCH 09/16] fix: keep the error message of ush_printf inside the
 output buffer

---
 src/src/ush.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 44b91f3..ac1efc6 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -155,15 +155,17 @@ void ush_printf(struct ush_object *self, const char *format, ...)
                 }
 
                 /* Do the error message fit into output_buffer pointed to by self->write_buf? */
-                if (self->desc->output_buffer_size - strlen(self->write_buf) >= strlen(error_msg)) {
+                if (self->desc->output_buffer_size - strlen(self->write_buf) >= (size_t)error_msg_size) {
                         /* Error message fits */
                         size_t end_idx = strlen(self->write_buf);
                         (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
                         self->write_size += strlen(&self->write_buf[end_idx]);
                 } else {
                         /* Error message does NOT fit */
-                        size_t end_idx = self->desc->output_buffer_size - error_msg_size;
-                        (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
+                        size_t end_idx = 0;
+                        if (self->desc->output_buffer_size > (size_t)error_msg_size)
+                                end_idx = self->desc->output_buffer_size - error_msg_size;
+                        (void)snprintf(&self->write_buf[end_idx], self->desc->output_buffer_size - end_idx, "%s", error_msg);
                         self->write_size = self->desc->output_buffer_size;
                 }
         }
-- 
2.43.0


From 3333550087f8dbfd794fc4127d2db54894b35c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 10/16] fix: keep rows formatted by help, ls and xxd inside the
 output buffer

---
 src/src/commands/ush_cmd_help.c |  4 ++--
 src/src/commands/ush_cmd_ls.c   |  6 +++---
 src/src/commands/ush_cmd_xxd.c  | 16 +++++++++-------
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/src/commands/ush_cmd_help.c b/src/src/commands/ush_cmd_help.c
index c63f8a8..116ec0d 100644
--- a/src/src/commands/ush_cmd_help.c
+++ b/src/src/commands/ush_cmd_help.c
@@ -88,10 +88,10 @@ bool ush_buildin_cmd_help_service(struct ush_object *self, struct ush_file_descr
                 switch (self->process_index) {
                 case 0:        
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 1;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 2;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_ls.c b/src/src/commands/ush_cmd_ls.c
index 7d1de82..d6ced34 100644
--- a/src/src/commands/ush_cmd_ls.c
+++ b/src/src/commands/ush_cmd_ls.c
@@ -129,17 +129,17 @@ bool ush_buildin_cmd_ls_service(struct ush_object *self, struct ush_file_descrip
                         char is_write = (f->set_data != NULL) ? 'w' : '-';
                         char is_exec = (f->exec != NULL) ? 'x' : '-';
                         char is_help = (f->help != NULL) ? 'h' : '-';
-                        sprintf(self->desc->output_buffer, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
                 }
                 case 1:
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 2;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 3;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_xxd.c b/src/src/commands/ush_cmd_xxd.c
index 27d6ef5..75a8a81 100644
--- a/src/src/commands/ush_cmd_xxd.c
+++ b/src/src/commands/ush_cmd_xxd.c
@@ -77,22 +77,23 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
         case USH_STATE_PROCESS_SERVICE: {
                 switch (self->process_index) {
                 case 0:
-                        sprintf(self->desc->output_buffer, "%08lX: ", self->process_index_item);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%08lX: ", self->process_index_item);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
                 case 1: {                        
                         self->desc->output_buffer[0] = '\0';
                         for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
+                                size_t len = strlen(self->desc->output_buffer);
                                 size_t offset = self->process_index_item + i;
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
-                                        sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%02X ", b);
+                                        snprintf(&self->desc->output_buffer[len], self->desc->output_buffer_size - len, "%02X ", b);
                                 } else {
-                                        strcat(self->desc->output_buffer, "   ");
+                                        strncat(self->desc->output_buffer, "   ", self->desc->output_buffer_size - len - 1);
                                 }
                         }
-                        strcat(self->desc->output_buffer, " ");
+                        strncat(self->desc->output_buffer, " ", self->desc->output_buffer_size - strlen(self->desc->output_buffer) - 1);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 2;
                         break;
@@ -100,16 +101,17 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                 case 2: {
                         self->desc->output_buffer[0] = '\0';
                         for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
+                                size_t len = strlen(self->desc->output_buffer);
                                 size_t offset = self->process_index_item;
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
                                         if (ush_utils_is_printable(b) != false) {
-                                                sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%c", (char)b);
+                                                snprintf(&self->desc->output_buffer[len], self->desc->output_buffer_size - len, "%c", (char)b);
                                         } else {
-                                                strcat(self->desc->output_buffer, ".");
+                                                strncat(self->desc->output_buffer, ".", self->desc->output_buffer_size - len - 1);
                                         }
                                 } else {
-                                        strcat(self->desc->output_buffer, " ");
+                                        strncat(self->desc->output_buffer, " ", self->desc->output_buffer_size - len - 1);
                                 }
                                 self->process_index_item++;
                         }
-- 
2.43.0


From b56b19ed55699299cecc0279e69338a76da5b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 11/16] fix: skip files with path longer than the maximum path
 length

---
 src/src/ush_file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/ush_file.c b/src/src/ush_file.c
index 1ae0db1..b6ae0ef 100644
--- a/src/src/ush_file.c
+++ b/src/src/ush_file.c
@@ -51,6 +51,10 @@ struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self,
         while (curr != NULL) {
                 for (size_t i = 0; i < curr->file_list_size; i++) {
                         file = &curr->file_list[i];
+                        /* skip names which don't fit, together with separator and ending zero */
+                        size_t separator_len = (strcmp(curr->path, "/") == 0) ? 0 : 1;
+                        if (strlen(curr->path) + separator_len + strlen(file->name) + 1 > self->desc->path_max_length)
+                                continue;
                         ush_utils_join_path(curr->path, file->name, file_path);
                         if (strcmp(file_path, abs_path) == 0)
                                 return file;
-- 
2.43.0


From 0c6f2dd5f57af6d9335d385679092039208ffc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 12/16] fix: stop cat when the next file is gone

---
 src/src/commands/ush_cmd_cat.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index 78636c5..a05d6bf 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -79,6 +79,11 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
                 ush_parse_get_args(self, argv);
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
+                /* file could be unmounted while the previous one was printed */
+                if ((f == NULL) || (f->get_data == NULL)) {
+                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
+                        break;
+                }
 
                 uint8_t *data;
                 size_t data_size = f->get_data(self, f, &data);
-- 
2.43.0


From 07f3445fa29b64413a85f4460453d9dad54c3f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 13/16] fix: keep cat going when the data callback prints a
 message

---
 src/src/commands/ush_cmd_cat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index a05d6bf..4b24d72 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -88,7 +88,7 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
                 uint8_t *data;
                 size_t data_size = f->get_data(self, f, &data);
 
-                ush_write_pointer_bin(self, data, data_size, self->state);
+                ush_write_pointer_bin(self, data, data_size, USH_STATE_PROCESS_SERVICE);
                 self->process_index_item++;
                 break;
         }
-- 
2.43.0


From 6ab738ed3360f7868c5e1af7d7aaed130d283fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 14/16] fix: autocomplete an argument after a single leading
 space

---
 src/src/ush_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/ush_utils.c b/src/src/ush_utils.c
index 6278f6f..3f234c6 100644
--- a/src/src/ush_utils.c
+++ b/src/src/ush_utils.c
@@ -206,10 +206,10 @@ char* ush_utils_get_last_arg(const char *input)
                 return (char*)&input[len + 1];
 
         while (len > 0) {
+                len--;
                 char ch = input[len];
                 if (ch == ' ')
                         return (char*)&input[len + 1];
-                len--;
         }
 
         return (char*)input;
-- 
2.43.0


From 269819b8fc81ac0087c8f8cb2d2b0b4c530bf99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:22 +0000
Subject: [PATCH 15/16] fix: mount every directory without children

---
 src/src/ush_node_mount.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index e1f6a23..d27f94f 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -49,6 +49,7 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
         node->file_list = file_list;
         node->file_list_size = file_list_size;
         node->path = path;
+        node->children = NULL;
 
         if (node_parent != NULL) {
                 node->next = node_parent->children;
-- 
2.43.0


From 363ee838682f7b3d22ef3db572edbdcc1eff3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 16/16] fix: find no directory by a path longer than the
 maximum path length

---
 src/src/ush_node.c       | 4 ++++
 src/src/ush_node_utils.c | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index 934839a..79ec736 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -33,6 +33,10 @@ struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char
         USH_ASSERT(path != NULL);
 
         char level_path[self->desc->path_max_length];
+
+        /* paths which don't fit never match any node */
+        if (strlen(path) + 1 > self->desc->path_max_length)
+                return NULL;
         
         size_t levels = ush_utils_get_path_levels_count(path);
 
diff --git a/src/src/ush_node_utils.c b/src/src/ush_node_utils.c
index 9321a28..c004e97 100644
--- a/src/src/ush_node_utils.c
+++ b/src/src/ush_node_utils.c
@@ -33,6 +33,9 @@ struct ush_node_object* ush_node_get_parent_by_path(struct ush_object *self, con
         USH_ASSERT(path != NULL);
 
         size_t path_len = strlen(path);
+        if (path_len + 1 > self->desc->path_max_length)
+                return NULL;
+
         char path_parent[path_len + 1];
         memcpy(path_parent, path, path_len + 1);
 
-- 
2.43.0

