From 1067c97fdc0311e851771a6ae11103835f42d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 01/22] fix: do not write autocompleted text past the end of
 the input buffer

---
 src/src/ush_autocomp_state.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 6a08f00..f10080c 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -85,6 +85,12 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         self->state = USH_STATE_READ_CHAR;
                         break;
                 case 1: {
+                        /* Completed line with newline char and string terminator must fit in the buffer */
+                        size_t input_offset = (size_t)(self->autocomp_input - self->desc->input_buffer);
+                        if (input_offset + strlen(self->autocomp_candidate_name) + 2 > self->desc->input_buffer_size) {
+                                self->state = USH_STATE_READ_CHAR;
+                                break;
+                        }
                         char *suffix = self->autocomp_input + strlen(self->autocomp_input);
                         strcpy(self->autocomp_input, self->autocomp_candidate_name);
                         self->in_pos = strlen(self->desc->input_buffer);
@@ -93,6 +99,10 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                 }
                 default:
                         self->autocomp_suffix_len = 0;
+                        if (self->in_pos + 3 > self->desc->input_buffer_size) {
+                                self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                                break;
+                        }
                         ush_autocomp_optimize_continue(self);
                         break;
                 }
@@ -108,6 +118,12 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         return;
                 }
 
+                /* No more place for next char, newline char and string terminator */
+                if (self->in_pos + 3 > self->desc->input_buffer_size) {
+                        self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                        return;
+                }
+
                 ush_autocomp_optimize_continue(self);
         } else {
                 USH_ASSERT(false);
-- 
2.43.0


From dacbf304a7cc0f97717339b40ad804e1236b0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 02/22] fix: resync input position with the input string before
 autocompletion

---
 src/src/ush_autocomp_state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index f10080c..76cc8fd 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -44,6 +44,8 @@ void ush_autocomp_state_recall_suffix(struct ush_object *self)
 
 void ush_autocomp_state_prepare(struct ush_object *self)
 {
+        /* Input is processed as a string, so drop anything after embedded NUL char */
+        self->in_pos = strlen(self->desc->input_buffer);
         self->autocomp_input = ush_utils_get_last_arg(self->desc->input_buffer);
         self->state = USH_STATE_AUTOCOMP_CANDIDATES_START;
 }
-- 
2.43.0


From 17f62d86a4b1645157051ad7dbd9c7787a8e8f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 03/22] fix: do not overflow stack buffers by paths longer than
 path_max_length

---
 src/src/ush_file.c |  3 +++
 src/src/ush_node.c | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/src/ush_file.c b/src/src/ush_file.c
index 1ae0db1..c23f444 100644
--- a/src/src/ush_file.c
+++ b/src/src/ush_file.c
@@ -51,6 +51,9 @@ struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self,
         while (curr != NULL) {
                 for (size_t i = 0; i < curr->file_list_size; i++) {
                         file = &curr->file_list[i];
+                        /* Too long path cannot be equal to the searched one */
+                        if (strlen(curr->path) + strlen(file->name) + 2 > sizeof(file_path))
+                                continue;
                         ush_utils_join_path(curr->path, file->name, file_path);
                         if (strcmp(file_path, abs_path) == 0)
                                 return file;
diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index cf7544f..a0b6af8 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -32,7 +32,7 @@ struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char
         USH_ASSERT(self != NULL);
         USH_ASSERT(path != NULL);
 
-        char level_path[self->desc->path_max_length];
+        char level_path[strlen(path) + 2];
         
         size_t levels = ush_utils_get_path_levels_count(path);
 
@@ -69,12 +69,17 @@ struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char
 
 void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, char *out_path)
 {
-        char abs_path[self->desc->path_max_length];
-
         USH_ASSERT(self != NULL);
         USH_ASSERT(in_path != NULL);
         USH_ASSERT(out_path != NULL);
 
+        size_t abs_path_size = strlen(in_path) + 1;
+        if (in_path[0] != '/')
+                abs_path_size += strlen(self->current_node->path) + 1;
+
+        char abs_path[abs_path_size];
+        char collapsed_path[abs_path_size];
+
         if (in_path[0] == '/') {
                 strcpy(abs_path, in_path);
         } else {
@@ -88,7 +93,15 @@ void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, ch
         if ((abs_path_len > 1) && (abs_path[abs_path_len - 1] == '/'))
                 abs_path[abs_path_len - 1] = '\0';
 
-        ush_utils_get_collapse_path(abs_path, out_path);
+        ush_utils_get_collapse_path(abs_path, collapsed_path);
+
+        /* Too long path cannot be resolved, so replace it with the one which never exists */
+        if (strlen(collapsed_path) >= self->desc->path_max_length) {
+                strcpy(out_path, ".");
+                return;
+        }
+
+        strcpy(out_path, collapsed_path);
 }
 
 void ush_node_deinit_recursive(struct ush_object *self, struct ush_node_object *node)
-- 
2.43.0


From abfbce0c640264774139094c912977699edd9e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 04/22] fix: clamp ush_printf error message to the output
 buffer size

---
 src/src/ush.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 0070f6a..eb7abe1 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -161,8 +161,10 @@ void ush_printf(struct ush_object *self, const char *format, ...)
                         self->write_size += strlen(&self->write_buf[end_idx]);
                 } else {
                         /* Error message does NOT fit */
-                        size_t end_idx = self->desc->output_buffer_size - error_msg_size;
-                        (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
+                        size_t end_idx = 0;
+                        if (self->desc->output_buffer_size > (size_t)error_msg_size)
+                                end_idx = self->desc->output_buffer_size - error_msg_size;
+                        (void)snprintf(&self->write_buf[end_idx], self->desc->output_buffer_size - end_idx, "%s", error_msg);
                         self->write_size = self->desc->output_buffer_size;
                 }
         }
-- 
2.43.0


From a489a1170468f3cc531e32a72ed863a4ec17e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 05/22] fix: reset commands list during initialization

---
 src/src/ush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/ush.c b/src/src/ush.c
index eb7abe1..0cd8055 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -48,6 +48,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
 
         self->desc = desc;
         self->root = NULL;
+        self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
         ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-- 
2.43.0


From ea987e082601e4ffbb543e435a6abb4c5c919e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 06/22] fix: reject input buffer without place for newline and
 string terminator

---
 src/src/ush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 0cd8055..7254144 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -36,7 +36,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
         USH_ASSERT(desc != NULL);
 
         USH_ASSERT(desc->input_buffer != NULL);
-        USH_ASSERT(desc->input_buffer_size > 0);
+        USH_ASSERT(desc->input_buffer_size > 1); /* newline char and string terminator */
         USH_ASSERT(desc->output_buffer != NULL);
         USH_ASSERT(desc->output_buffer_size >= 4); /* internal echo buffer */
 
-- 
2.43.0


From 9a922de206df43eb9e9057fc97ccbd2656393c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 07/22] fix: do not print stale tail of input after ascii-hex
 decoding in echo

---
 src/src/commands/ush_cmd_echo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/commands/ush_cmd_echo.c b/src/src/commands/ush_cmd_echo.c
index fe336d8..fbd4fd5 100644
--- a/src/src/commands/ush_cmd_echo.c
+++ b/src/src/commands/ush_cmd_echo.c
@@ -70,6 +70,7 @@ void ush_buildin_cmd_echo_callback(struct ush_object *self, struct ush_file_desc
                         f->set_data(self, f, data, data_size);
                 } else {
                         if (data != NULL) {
+                                data[data_size] = '\0';
                                 ush_print(self, (char*)data);
                         } else {
                                 self->state = USH_STATE_RESET;
-- 
2.43.0


From c7fa40aff63603990d3209a028c450886a57f73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 08/22] fix: do not use uninitialized data pointer for empty
 file in cat

---
 src/src/commands/ush_cmd_cat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index 78636c5..d11a456 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -80,7 +80,7 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
 
-                uint8_t *data;
+                uint8_t *data = (uint8_t*)"";
                 size_t data_size = f->get_data(self, f, &data);
 
                 ush_write_pointer_bin(self, data, data_size, self->state);
-- 
2.43.0


From 9cac405c89c31b96ae57583f75937fce07582803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 09/22] fix: do not modify node when mount fails

---
 src/src/ush_node_mount.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index fb0c65e..fb1fe98 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -37,16 +37,15 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 USH_ASSERT(file_list[i].name != NULL);
         }
 
-        node->file_list = file_list;
-        node->file_list_size = file_list_size;
-        node->path = path;
-
         struct ush_node_object *node_exists = ush_node_get_by_path(self, path);
         if (node_exists != NULL)
                 return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;
 
         struct ush_node_object *node_parent = ush_node_get_parent_by_path(self, path);
         if (node_parent != NULL) {
+                node->file_list = file_list;
+                node->file_list_size = file_list_size;
+                node->path = path;
                 node->next = node_parent->children;
                 node_parent->children = node;
                 node->parent = node_parent;
@@ -54,6 +53,9 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
         }
 
         if (strcmp(path, "/") == 0) {
+                node->file_list = file_list;
+                node->file_list_size = file_list_size;
+                node->path = path;
                 node->next = NULL;
                 self->root = node;
                 self->current_node = self->root;
-- 
2.43.0


From 00c13ac1d7c1f0dcf643af648b4b4967ad756e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 10/22] fix: leave current directory when it is unmounted

---
 src/src/ush_node_mount.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index fb1fe98..7ead72c 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -85,6 +85,10 @@ ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
                 return USH_STATUS_OK;
         }
 
+        /* Do not stay in unmounted directory */
+        if (self->current_node == node)
+                self->current_node = parent_node;
+
         struct ush_node_object *prev = NULL;
         struct ush_node_object *curr = parent_node->children;
 
-- 
2.43.0


From 55d179fb4244f4875eb40311680537c7f7fe5d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 11/22] fix: do not overflow output buffer by ls, help and xxd

---
 src/src/commands/ush_cmd_help.c | 20 +++++++++++++++++++-
 src/src/commands/ush_cmd_ls.c   | 20 +++++++++++++++++++-
 src/src/ush.c                   | 25 ++++++++++++++++++++++++-
 3 files changed, 62 insertions(+), 3 deletions(-)

diff --git a/src/src/commands/ush_cmd_help.c b/src/src/commands/ush_cmd_help.c
index c63f8a8..fdec40f 100644
--- a/src/src/commands/ush_cmd_help.c
+++ b/src/src/commands/ush_cmd_help.c
@@ -40,6 +40,7 @@ void ush_buildin_cmd_help_callback(struct ush_object *self, struct ush_file_desc
                 self->process_node = self->commands;
                 self->process_index = 0;
                 self->process_index_item = 0;
+                self->process_stage = 0;
                 ush_process_start(self, file);
                 break;
         case 2: {
@@ -88,11 +89,28 @@ bool ush_buildin_cmd_help_service(struct ush_object *self, struct ush_file_descr
                 switch (self->process_index) {
                 case 0:        
                         if (f->description != NULL) {
+                                static const char separator[] = " " USH_SHELL_FONT_COLOR_YELLOW "- ";
+                                if (strlen(f->name) + sizeof(separator) > self->desc->output_buffer_size) {
+                                        /* Too long name to be formatted in output buffer */
+                                        if (self->process_stage == 0) {
+                                                ush_write_pointer(self, (char*)f->name, self->state);
+                                                self->process_stage = 1;
+                                        } else {
+                                                ush_write_pointer(self, (char*)separator, self->state);
+                                                self->process_stage = 0;
+                                                self->process_index = 1;
+                                        }
+                                        break;
+                                }
                                 sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 1;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
                                 self->process_index = 2;
+                                if (strlen(f->name) + 1 > self->desc->output_buffer_size) {
+                                        ush_write_pointer(self, (char*)f->name, self->state);
+                                        break;
+                                }
+                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         break;
diff --git a/src/src/commands/ush_cmd_ls.c b/src/src/commands/ush_cmd_ls.c
index 7d1de82..1d2e65d 100644
--- a/src/src/commands/ush_cmd_ls.c
+++ b/src/src/commands/ush_cmd_ls.c
@@ -55,6 +55,7 @@ void ush_buildin_cmd_ls_callback(struct ush_object *self, struct ush_file_descri
                 return;
         }
 
+        self->process_stage = 0;
         ush_process_start(self, file);
 }
 
@@ -136,11 +137,28 @@ bool ush_buildin_cmd_ls_service(struct ush_object *self, struct ush_file_descrip
                 }
                 case 1:
                         if (f->description != NULL) {
+                                static const char separator[] = " " USH_SHELL_FONT_COLOR_YELLOW "- ";
+                                if (strlen(f->name) + sizeof(separator) > self->desc->output_buffer_size) {
+                                        /* Too long name to be formatted in output buffer */
+                                        if (self->process_stage == 0) {
+                                                ush_write_pointer(self, (char*)f->name, self->state);
+                                                self->process_stage = 1;
+                                        } else {
+                                                ush_write_pointer(self, (char*)separator, self->state);
+                                                self->process_stage = 0;
+                                                self->process_index = 2;
+                                        }
+                                        break;
+                                }
                                 sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 2;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
                                 self->process_index = 3;
+                                if (strlen(f->name) + 1 > self->desc->output_buffer_size) {
+                                        ush_write_pointer(self, (char*)f->name, self->state);
+                                        break;
+                                }
+                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         break;
diff --git a/src/src/ush.c b/src/src/ush.c
index 7254144..2c023e1 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -30,6 +30,29 @@ SOFTWARE.
 #include <stdarg.h>
 #include <string.h>
 
+/* Minimum output buffer size, needed by internal echo and by enabled commands */
+#define USH_OUTPUT_SIZE_ECHO    4
+#define USH_OUTPUT_SIZE_NAME    (USH_CONFIG_FILENAME_ALIGN_SPACE + sizeof(" " USH_SHELL_FONT_COLOR_YELLOW "- "))
+#define USH_OUTPUT_SIZE_XXD     ((USH_CONFIG_CMD_XXD_COLUMNS > 3) ? (USH_CONFIG_CMD_XXD_COLUMNS) * 3 + 2 : 11)
+
+static size_t get_output_size_min(void)
+{
+        size_t size = USH_OUTPUT_SIZE_ECHO;
+
+#if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
+#if (USH_CONFIG_ENABLE_COMMAND_LS == 1) || (USH_CONFIG_ENABLE_COMMAND_HELP == 1)
+        if (size < USH_OUTPUT_SIZE_NAME)
+                size = USH_OUTPUT_SIZE_NAME;
+#endif
+#if USH_CONFIG_ENABLE_COMMAND_XXD == 1
+        if (size < USH_OUTPUT_SIZE_XXD)
+                size = USH_OUTPUT_SIZE_XXD;
+#endif
+#endif /* USH_CONFIG_ENABLE_FEATURE_COMMANDS */
+
+        return size;
+}
+
 void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
 {
         USH_ASSERT(self != NULL);
@@ -38,7 +61,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
         USH_ASSERT(desc->input_buffer != NULL);
         USH_ASSERT(desc->input_buffer_size > 1); /* newline char and string terminator */
         USH_ASSERT(desc->output_buffer != NULL);
-        USH_ASSERT(desc->output_buffer_size >= 4); /* internal echo buffer */
+        USH_ASSERT(desc->output_buffer_size >= get_output_size_min());
 
         USH_ASSERT(desc->io != NULL);
         USH_ASSERT(desc->io->read != NULL);
-- 
2.43.0


From e4e3b9205adeca99c8efb6acc3abfcd09abd0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 12/22] fix: do not write past the end of demo memory devices

---
 examples/demo_linux/fs/path/dev.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/demo_linux/fs/path/dev.c b/examples/demo_linux/fs/path/dev.c
index b23f947..712d42f 100644
--- a/examples/demo_linux/fs/path/dev.c
+++ b/examples/demo_linux/fs/path/dev.c
@@ -106,6 +106,8 @@ static void ram_data_setter(struct ush_object *self, struct ush_file_descriptor
         (void)self;
         (void)file;
 
+        if (size > sizeof(g_ram_buffer))
+                size = sizeof(g_ram_buffer);
         memcpy(g_ram_buffer, data, size);
 }
 
@@ -123,6 +125,8 @@ static void eeprom_data_setter(struct ush_object *self, struct ush_file_descript
         (void)self;
         (void)file;
 
+        if (size > sizeof(g_eeprom_buffer))
+                size = sizeof(g_eeprom_buffer);
         memcpy(g_eeprom_buffer, data, size);
 }
 
-- 
2.43.0


From 55b051d8d143be161b89b7d46467e783c35ee882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 13/22] fix: respect data size when setting demo hostname

---
 examples/demo_linux/fs/path/etc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/examples/demo_linux/fs/path/etc.c b/examples/demo_linux/fs/path/etc.c
index 4ed169d..363e7dd 100644
--- a/examples/demo_linux/fs/path/etc.c
+++ b/examples/demo_linux/fs/path/etc.c
@@ -54,9 +54,13 @@ static void g_hostname_data_setter(struct ush_object *self, struct ush_file_desc
 {
         (void)self;
         (void)file;
-        (void)size;
 
-        shell_set_hostname((char*)data);
+        /* Data is binary, so it is not zero-ended */
+        char hostname[size + 1];
+        memcpy(hostname, data, size);
+        hostname[size] = '\0';
+
+        shell_set_hostname(hostname);
 }
 
 static const struct ush_file_descriptor g_etc_desc[] = {
-- 
2.43.0


From 93b7ed914b967cc56a3b1d73f662d5aac434ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:14 +0000
Subject: [PATCH 14/22] fix: keep string terminator of ush_printf error message
 inside the output buffer

---
 src/src/ush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 2c023e1..2633b44 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -178,7 +178,7 @@ void ush_printf(struct ush_object *self, const char *format, ...)
                 }
 
                 /* Do the error message fit into output_buffer pointed to by self->write_buf? */
-                if (self->desc->output_buffer_size - strlen(self->write_buf) >= strlen(error_msg)) {
+                if (self->desc->output_buffer_size - strlen(self->write_buf) > strlen(error_msg)) {
                         /* Error message fits */
                         size_t end_idx = strlen(self->write_buf);
                         (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
-- 
2.43.0


From b18311ca0742e86644f94689e6463345ad41d62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 15/22] fix: find file which path exactly fits path_max_length

---
 src/src/ush_file.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/src/ush_file.c b/src/src/ush_file.c
index c23f444..5c391c0 100644
--- a/src/src/ush_file.c
+++ b/src/src/ush_file.c
@@ -52,7 +52,8 @@ struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self,
                 for (size_t i = 0; i < curr->file_list_size; i++) {
                         file = &curr->file_list[i];
                         /* Too long path cannot be equal to the searched one */
-                        if (strlen(curr->path) + strlen(file->name) + 2 > sizeof(file_path))
+                        size_t separator_len = (strcmp(curr->path, "/") == 0) ? 0 : 1;
+                        if (strlen(curr->path) + separator_len + strlen(file->name) + 1 > sizeof(file_path))
                                 continue;
                         ush_utils_join_path(curr->path, file->name, file_path);
                         if (strcmp(file_path, abs_path) == 0)
-- 
2.43.0


From 2e0a2eaba95ca60c5a278f4167ced372ee14a299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 16/22] fix: initialise children list of mounted node

---
 src/src/ush_node_mount.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index 7ead72c..b5c7b9a 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -46,6 +46,7 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 node->file_list = file_list;
                 node->file_list_size = file_list_size;
                 node->path = path;
+                node->children = NULL;
                 node->next = node_parent->children;
                 node_parent->children = node;
                 node->parent = node_parent;
@@ -56,6 +57,7 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 node->file_list = file_list;
                 node->file_list_size = file_list_size;
                 node->path = path;
+                node->children = NULL;
                 node->next = NULL;
                 self->root = node;
                 self->current_node = self->root;
-- 
2.43.0


From d3b2f916e19aa296b071a324ef8a7835b3390287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 17/22] fix: complete word behind single leading space

---
 src/src/ush_utils.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/src/ush_utils.c b/src/src/ush_utils.c
index 6278f6f..755da6c 100644
--- a/src/src/ush_utils.c
+++ b/src/src/ush_utils.c
@@ -198,17 +198,9 @@ char* ush_utils_get_last_arg(const char *input)
 
         size_t len = strlen(input);
 
-        if (len == 0)
-                return (char*)input;
-        
-        len--;
-        if (input[len] == ' ')
-                return (char*)&input[len + 1];
-
         while (len > 0) {
-                char ch = input[len];
-                if (ch == ' ')
-                        return (char*)&input[len + 1];
+                if (input[len - 1] == ' ')
+                        return (char*)&input[len];
                 len--;
         }
 
-- 
2.43.0


From a1541ddb56671fe2733e043768d3f3d899898836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 18/22] Revert "fix: respect data size when setting demo
 hostname"

This reverts commit 55b051d8d143be161b89b7d46467e783c35ee882.
---
 examples/demo_linux/fs/path/etc.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/examples/demo_linux/fs/path/etc.c b/examples/demo_linux/fs/path/etc.c
index 363e7dd..4ed169d 100644
--- a/examples/demo_linux/fs/path/etc.c
+++ b/examples/demo_linux/fs/path/etc.c
@@ -54,13 +54,9 @@ static void g_hostname_data_setter(struct ush_object *self, struct ush_file_desc
 {
         (void)self;
         (void)file;
+        (void)size;
 
-        /* Data is binary, so it is not zero-ended */
-        char hostname[size + 1];
-        memcpy(hostname, data, size);
-        hostname[size] = '\0';
-
-        shell_set_hostname(hostname);
+        shell_set_hostname((char*)data);
 }
 
 static const struct ush_file_descriptor g_etc_desc[] = {
-- 
2.43.0


From 0dfe5e8f9348d4b99dce1b23d7f3f651f951f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 19/22] Revert "fix: do not write past the end of demo memory
 devices"

This reverts commit e4e3b9205adeca99c8efb6acc3abfcd09abd0e09.
---
 examples/demo_linux/fs/path/dev.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/examples/demo_linux/fs/path/dev.c b/examples/demo_linux/fs/path/dev.c
index 712d42f..b23f947 100644
--- a/examples/demo_linux/fs/path/dev.c
+++ b/examples/demo_linux/fs/path/dev.c
@@ -106,8 +106,6 @@ static void ram_data_setter(struct ush_object *self, struct ush_file_descriptor
         (void)self;
         (void)file;
 
-        if (size > sizeof(g_ram_buffer))
-                size = sizeof(g_ram_buffer);
         memcpy(g_ram_buffer, data, size);
 }
 
@@ -125,8 +123,6 @@ static void eeprom_data_setter(struct ush_object *self, struct ush_file_descript
         (void)self;
         (void)file;
 
-        if (size > sizeof(g_eeprom_buffer))
-                size = sizeof(g_eeprom_buffer);
         memcpy(g_eeprom_buffer, data, size);
 }
 
-- 
2.43.0


From 30e1142cd8681af4fb8f696f29ac44aa48c139f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:35 +0000
Subject: [PATCH 20/22] fix: do not crash when file disappears during cat

---
 src/src/commands/ush_cmd_cat.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index d11a456..af7c0a6 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -79,6 +79,15 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
                 ush_parse_get_args(self, argv);
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
+                if (f == NULL) {
+                        /* File disappeared in the meantime */
+                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
+                        break;
+                }
+                if (f->get_data == NULL) {
+                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_READABLE);
+                        break;
+                }
 
                 uint8_t *data = (uint8_t*)"";
                 size_t data_size = f->get_data(self, f, &data);
-- 
2.43.0


From c0be283cf2a25e6c664ba8cfd76816c11415fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:16 +0000
Subject: [PATCH 21/22] fix: collapse empty path without zero size array

---
 src/src/ush_utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/ush_utils.c b/src/src/ush_utils.c
index 755da6c..367ee53 100644
--- a/src/src/ush_utils.c
+++ b/src/src/ush_utils.c
@@ -53,6 +53,10 @@ void ush_utils_get_collapse_path(char *in_path, char *out_path)
                 return;
 
         size_t levels = ush_utils_get_path_levels_count(in_path);
+        if (levels == 0) {
+                strcpy(out_path, "/");
+                return;
+        }
         char *nodes[levels];
         size_t index = 0;
         int state = 0;
-- 
2.43.0


From 6894ced6de1673fd45c5d0c12f5efc83944f2167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:05 +0000
Subject: [PATCH 22/22] fix: accept null data pointer of empty file in cat

---
 src/src/commands/ush_cmd_cat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index af7c0a6..2af2578 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -91,6 +91,8 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
 
                 uint8_t *data = (uint8_t*)"";
                 size_t data_size = f->get_data(self, f, &data);
+                if (data_size == 0)
+                        data = (uint8_t*)"";
 
                 ush_write_pointer_bin(self, data, data_size, self->state);
                 self->process_index_item++;
-- 
2.43.0

