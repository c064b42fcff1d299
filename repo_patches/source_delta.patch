From 7f0788badf652267f019e0df0dcd4c111c3d8e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 01/17] fix: do not overflow input buffer on single match
 autocompletion

---
 src/src/ush_autocomp_state.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 6a08f00..93c1804 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -85,6 +85,12 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         self->state = USH_STATE_READ_CHAR;
                         break;
                 case 1: {
+                        size_t input_offset = (size_t)(self->autocomp_input - self->desc->input_buffer);
+                        if (input_offset + strlen(self->autocomp_candidate_name) >= self->desc->input_buffer_size) {
+                                /* completed line does not fit to input buffer */
+                                self->state = USH_STATE_READ_CHAR;
+                                break;
+                        }
                         char *suffix = self->autocomp_input + strlen(self->autocomp_input);
                         strcpy(self->autocomp_input, self->autocomp_candidate_name);
                         self->in_pos = strlen(self->desc->input_buffer);
-- 
2.43.0


From d9d526f23c4d64d3821a65472c2a223cdb3bb8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 02/17] fix: do not wrap input position during autocompletion

---
 src/src/ush_autocomp_state.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 93c1804..cabb437 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -99,6 +99,11 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                 }
                 default:
                         self->autocomp_suffix_len = 0;
+                        if (self->in_pos + 1 >= self->desc->input_buffer_size) {
+                                /* input buffer is full */
+                                self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                                break;
+                        }
                         ush_autocomp_optimize_continue(self);
                         break;
                 }
@@ -113,6 +118,11 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
                         return;
                 }
+                if (self->in_pos + 1 >= self->desc->input_buffer_size) {
+                        /* input buffer is full */
+                        self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                        return;
+                }
 
                 ush_autocomp_optimize_continue(self);
         } else {
-- 
2.43.0


From ee7f7cedef90e5ba21e84ae40ada8f84c8caa8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 03/17] fix: do not overflow path buffers on too long paths

---
 src/src/ush_file.c |  2 ++
 src/src/ush_node.c | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/src/ush_file.c b/src/src/ush_file.c
index 1ae0db1..473e3e3 100644
--- a/src/src/ush_file.c
+++ b/src/src/ush_file.c
@@ -51,6 +51,8 @@ struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self,
         while (curr != NULL) {
                 for (size_t i = 0; i < curr->file_list_size; i++) {
                         file = &curr->file_list[i];
+                        if (strlen(curr->path) + strlen(file->name) + 2 > self->desc->path_max_length)
+                                continue;
                         ush_utils_join_path(curr->path, file->name, file_path);
                         if (strcmp(file_path, abs_path) == 0)
                                 return file;
diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index cf7544f..b7918ee 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -40,6 +40,8 @@ struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char
                 return self->root;
         if (self->root == NULL)
                 return NULL;
+        if (strlen(path) >= self->desc->path_max_length)
+                return NULL;
 
         struct ush_node_object *curr = self->root->children;
         for (size_t i = 1; i <= levels; i++) {
@@ -75,6 +77,15 @@ void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, ch
         USH_ASSERT(in_path != NULL);
         USH_ASSERT(out_path != NULL);
 
+        size_t path_len = strlen(in_path);
+        if (in_path[0] != '/')
+                path_len += strlen(self->current_node->path) + 1;
+        if (path_len >= self->desc->path_max_length) {
+                /* too long path, return path which cannot be resolved */
+                strcpy(out_path, ".");
+                return;
+        }
+
         if (in_path[0] == '/') {
                 strcpy(abs_path, in_path);
         } else {
-- 
2.43.0


From 1bd6d62e3810fe6691e9a14bad88ab5825ad42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 04/17] fix: do not overflow output buffer on ls and help
 listing

---
 src/src/commands/ush_cmd_help.c | 4 ++--
 src/src/commands/ush_cmd_ls.c   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/src/commands/ush_cmd_help.c b/src/src/commands/ush_cmd_help.c
index c63f8a8..116ec0d 100644
--- a/src/src/commands/ush_cmd_help.c
+++ b/src/src/commands/ush_cmd_help.c
@@ -88,10 +88,10 @@ bool ush_buildin_cmd_help_service(struct ush_object *self, struct ush_file_descr
                 switch (self->process_index) {
                 case 0:        
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 1;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 2;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_ls.c b/src/src/commands/ush_cmd_ls.c
index 7d1de82..d6ced34 100644
--- a/src/src/commands/ush_cmd_ls.c
+++ b/src/src/commands/ush_cmd_ls.c
@@ -129,17 +129,17 @@ bool ush_buildin_cmd_ls_service(struct ush_object *self, struct ush_file_descrip
                         char is_write = (f->set_data != NULL) ? 'w' : '-';
                         char is_exec = (f->exec != NULL) ? 'x' : '-';
                         char is_help = (f->help != NULL) ? 'h' : '-';
-                        sprintf(self->desc->output_buffer, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
                 }
                 case 1:
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 2;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 3;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
-- 
2.43.0


From a81e1f8683f105fd89f21150c32c10b6e7c720a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:23 +0000
Subject: [PATCH 05/17] fix: do not overflow output buffer on xxd dump

---
 src/src/commands/ush_cmd_xxd.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/src/commands/ush_cmd_xxd.c b/src/src/commands/ush_cmd_xxd.c
index 27d6ef5..2a885c6 100644
--- a/src/src/commands/ush_cmd_xxd.c
+++ b/src/src/commands/ush_cmd_xxd.c
@@ -77,7 +77,7 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
         case USH_STATE_PROCESS_SERVICE: {
                 switch (self->process_index) {
                 case 0:
-                        sprintf(self->desc->output_buffer, "%08lX: ", self->process_index_item);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%08lX: ", self->process_index_item);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
@@ -87,12 +87,12 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                                 size_t offset = self->process_index_item + i;
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
-                                        sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%02X ", b);
+                                        snprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], self->desc->output_buffer_size - strlen(self->desc->output_buffer), "%02X ", b);
                                 } else {
-                                        strcat(self->desc->output_buffer, "   ");
+                                        strncat(self->desc->output_buffer, "   ", self->desc->output_buffer_size - strlen(self->desc->output_buffer) - 1);
                                 }
                         }
-                        strcat(self->desc->output_buffer, " ");
+                        strncat(self->desc->output_buffer, " ", self->desc->output_buffer_size - strlen(self->desc->output_buffer) - 1);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 2;
                         break;
@@ -104,12 +104,12 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
                                         if (ush_utils_is_printable(b) != false) {
-                                                sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%c", (char)b);
+                                                snprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], self->desc->output_buffer_size - strlen(self->desc->output_buffer), "%c", (char)b);
                                         } else {
-                                                strcat(self->desc->output_buffer, ".");
+                                                strncat(self->desc->output_buffer, ".", self->desc->output_buffer_size - strlen(self->desc->output_buffer) - 1);
                                         }
                                 } else {
-                                        strcat(self->desc->output_buffer, " ");
+                                        strncat(self->desc->output_buffer, " ", self->desc->output_buffer_size - strlen(self->desc->output_buffer) - 1);
                                 }
                                 self->process_index_item++;
                         }
-- 
2.43.0


From 648fca3baaa6c47f9a7618f49c58a039a3f5e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:24 +0000
Subject: [PATCH 06/17] fix: require input buffer able to store new line and
 terminator

---
 src/src/ush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 0070f6a..d158a2e 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -36,7 +36,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
         USH_ASSERT(desc != NULL);
 
         USH_ASSERT(desc->input_buffer != NULL);
-        USH_ASSERT(desc->input_buffer_size > 0);
+        USH_ASSERT(desc->input_buffer_size >= 2); /* at least new line and terminator */
         USH_ASSERT(desc->output_buffer != NULL);
         USH_ASSERT(desc->output_buffer_size >= 4); /* internal echo buffer */
 
-- 
2.43.0


From 8bb097ad724d8c414df004ec14966dabdb2ac35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 07/17] fix: initialize commands list in ush_init

---
 src/src/ush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/ush.c b/src/src/ush.c
index d158a2e..6cd4b4e 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -48,6 +48,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
 
         self->desc = desc;
         self->root = NULL;
+        self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
         ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-- 
2.43.0


From 0a246d51be7bf85ebe2dec0d64b92de577f449e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 08/17] fix: do not leave dangling current directory on unmount

---
 src/src/ush_node_mount.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index fb0c65e..3a95688 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -80,6 +80,7 @@ ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
 
         if (parent_node == NULL) {
                 self->root = NULL;
+                self->current_node = NULL;
                 return USH_STATUS_OK;
         }
 
@@ -97,6 +98,8 @@ ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
                 } else {
                         prev->next = node->next;
                 }
+                if (self->current_node == node)
+                        self->current_node = parent_node;
                 return USH_STATUS_OK;           
         }
 
-- 
2.43.0


From 1254974631d1038adf4921da6f9445b2107ce022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 09/17] fix: terminate decoded string in echo command

---
 src/src/commands/ush_cmd_echo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/commands/ush_cmd_echo.c b/src/src/commands/ush_cmd_echo.c
index fe336d8..91573c2 100644
--- a/src/src/commands/ush_cmd_echo.c
+++ b/src/src/commands/ush_cmd_echo.c
@@ -62,6 +62,7 @@ void ush_buildin_cmd_echo_callback(struct ush_object *self, struct ush_file_desc
                 char *data_in = argv[1];
                 size_t max_size = strlen(data_in);
                 data_size = ush_utils_decode_ascii(data_in, (uint8_t*)data_in, max_size);
+                data_in[data_size] = '\0';
                 data = (uint8_t*)data_in;
         }
                 /* fallthrough */
-- 
2.43.0


From d5aab2996b1bae10cfbe2a8f9b5bb9e33c1b1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 10/17] fix: skip single leading space in last argument

---
 src/src/ush_utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/src/ush_utils.c b/src/src/ush_utils.c
index 6278f6f..4cd5ea1 100644
--- a/src/src/ush_utils.c
+++ b/src/src/ush_utils.c
@@ -212,6 +212,9 @@ char* ush_utils_get_last_arg(const char *input)
                 len--;
         }
 
+        if (input[0] == ' ')
+                return (char*)&input[1];
+
         return (char*)input;
 }
 
-- 
2.43.0


From 2c2e4fd8c4ecb5de8d870f6dd84769374fa3361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:27 +0000
Subject: [PATCH 11/17] fix: do not modify node when mount fails, initialize
 children on mount

---
 src/src/ush_node_mount.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index 3a95688..67566e1 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -37,15 +37,19 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 USH_ASSERT(file_list[i].name != NULL);
         }
 
-        node->file_list = file_list;
-        node->file_list_size = file_list_size;
-        node->path = path;
-
         struct ush_node_object *node_exists = ush_node_get_by_path(self, path);
         if (node_exists != NULL)
                 return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;
 
         struct ush_node_object *node_parent = ush_node_get_parent_by_path(self, path);
+        if ((node_parent == NULL) && (strcmp(path, "/") != 0))
+                return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
+
+        node->file_list = file_list;
+        node->file_list_size = file_list_size;
+        node->path = path;
+        node->children = NULL;
+
         if (node_parent != NULL) {
                 node->next = node_parent->children;
                 node_parent->children = node;
@@ -53,15 +57,11 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 return USH_STATUS_OK;
         }
 
-        if (strcmp(path, "/") == 0) {
-                node->next = NULL;
-                self->root = node;
-                self->current_node = self->root;
-                node->parent = NULL;
-                return USH_STATUS_OK;
-        }
-
-        return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
+        node->next = NULL;
+        self->root = node;
+        self->current_node = self->root;
+        node->parent = NULL;
+        return USH_STATUS_OK;
 }
 
 ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
-- 
2.43.0


From 9a85e4660b9c102d642769747d5e428b39052001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 12/17] fix: do not use uninitialized data pointer in cat
 command

---
 src/src/commands/ush_cmd_cat.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index 78636c5..7241ae9 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -80,7 +80,12 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
 
-                uint8_t *data;
+                if ((f == NULL) || (f->get_data == NULL)) {
+                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
+                        break;
+                }
+
+                uint8_t *data = (uint8_t*)"";
                 size_t data_size = f->get_data(self, f, &data);
 
                 ush_write_pointer_bin(self, data, data_size, self->state);
-- 
2.43.0


From ee976dd40842c6d0226a22cd38907d8e8d59ac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 13/17] fix: do not overflow output buffer on ush_printf error
 message

---
 src/src/ush.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 6cd4b4e..6861d42 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -155,15 +155,17 @@ void ush_printf(struct ush_object *self, const char *format, ...)
                 }
 
                 /* Do the error message fit into output_buffer pointed to by self->write_buf? */
-                if (self->desc->output_buffer_size - strlen(self->write_buf) >= strlen(error_msg)) {
+                if (self->desc->output_buffer_size - strlen(self->write_buf) >= (size_t)error_msg_size) {
                         /* Error message fits */
                         size_t end_idx = strlen(self->write_buf);
                         (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
                         self->write_size += strlen(&self->write_buf[end_idx]);
                 } else {
                         /* Error message does NOT fit */
-                        size_t end_idx = self->desc->output_buffer_size - error_msg_size;
-                        (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
+                        size_t end_idx = 0;
+                        if (self->desc->output_buffer_size > (size_t)error_msg_size)
+                                end_idx = self->desc->output_buffer_size - error_msg_size;
+                        (void)snprintf(&self->write_buf[end_idx], self->desc->output_buffer_size - end_idx, "%s", error_msg);
                         self->write_size = self->desc->output_buffer_size;
                 }
         }
-- 
2.43.0


From 206bfd4e252480b71f14db00c409efc44c8b2370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 14/17] fix: limit size of data written to demo memory files

---
 examples/demo_linux/fs/path/dev.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/demo_linux/fs/path/dev.c b/examples/demo_linux/fs/path/dev.c
index b23f947..712d42f 100644
--- a/examples/demo_linux/fs/path/dev.c
+++ b/examples/demo_linux/fs/path/dev.c
@@ -106,6 +106,8 @@ static void ram_data_setter(struct ush_object *self, struct ush_file_descriptor
         (void)self;
         (void)file;
 
+        if (size > sizeof(g_ram_buffer))
+                size = sizeof(g_ram_buffer);
         memcpy(g_ram_buffer, data, size);
 }
 
@@ -123,6 +125,8 @@ static void eeprom_data_setter(struct ush_object *self, struct ush_file_descript
         (void)self;
         (void)file;
 
+        if (size > sizeof(g_eeprom_buffer))
+                size = sizeof(g_eeprom_buffer);
         memcpy(g_eeprom_buffer, data, size);
 }
 
-- 
2.43.0


From a475c8e780c3a8712e66b5eed588a91279e063fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:08 +0000
Subject: [PATCH 15/17] fix: synchronize input position before autocompletion

---
 src/src/ush_autocomp_state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index cabb437..6666fbc 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -44,6 +44,8 @@ void ush_autocomp_state_recall_suffix(struct ush_object *self)
 
 void ush_autocomp_state_prepare(struct ush_object *self)
 {
+        /* input may contain embedded NUL characters */
+        self->in_pos = strlen(self->desc->input_buffer);
         self->autocomp_input = ush_utils_get_last_arg(self->desc->input_buffer);
         self->state = USH_STATE_AUTOCOMP_CANDIDATES_START;
 }
-- 
2.43.0


From b548f33382d6d2f942b84dfade8e5b315a7ebba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 16/17] Revert "fix: limit size of data written to demo memory
 files": examples stay as they are

---
 examples/demo_linux/fs/path/dev.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/examples/demo_linux/fs/path/dev.c b/examples/demo_linux/fs/path/dev.c
index 712d42f..b23f947 100644
--- a/examples/demo_linux/fs/path/dev.c
+++ b/examples/demo_linux/fs/path/dev.c
@@ -106,8 +106,6 @@ static void ram_data_setter(struct ush_object *self, struct ush_file_descriptor
         (void)self;
         (void)file;
 
-        if (size > sizeof(g_ram_buffer))
-                size = sizeof(g_ram_buffer);
         memcpy(g_ram_buffer, data, size);
 }
 
@@ -125,8 +123,6 @@ static void eeprom_data_setter(struct ush_object *self, struct ush_file_descript
         (void)self;
         (void)file;
 
-        if (size > sizeof(g_eeprom_buffer))
-                size = sizeof(g_eeprom_buffer);
         memcpy(g_eeprom_buffer, data, size);
 }
 
-- 
2.43.0


From 24dc297648342719476ded3e8b4e0124df7d4069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:06 +0000
Subject: [PATCH 17/17] fix: start a session when no built-in command is
 selected

With commands enabled but none selected, ush_init() added the empty table,
which ush_commands_add() rejects with an assertion, so the program ended.
---
 src/src/ush.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 6861d42..426ee5c 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -51,9 +51,11 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
         self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
-        ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-        if (stat != USH_STATUS_OK) {
-                USH_ASSERT(false);
+        if (g_ush_buildin_commands_num > 0) {
+                ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
+                if (stat != USH_STATUS_OK) {
+                        USH_ASSERT(false);
+                }
         }
 #endif /* USH_CONFIG_ENABLE_FEATURE_COMMANDS */
 
-- 
2.43.0

