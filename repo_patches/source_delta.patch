From a0ca8898f0674eca1a36fcf0a6160ccf7d3dd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:41 +0000
Subject: [PATCH 01/34] fix: never copy more payload than the length announced
 by the peer

extract_data() copied everything after the first newline into a buffer of the
announced length, and searched for the newline past the end of the message.
---
 src/common/mlle_utils.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 9b39e26..623dc84 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -52,7 +52,7 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
 
     // Get pointer to data part
     // Everything after the first new line character is the data part.
-    data_part = strstr(buffer, "\n");
+    data_part = memchr(buffer, '\n', buffer_len);
     if (data_part == NULL)
     {
         return 0;
@@ -60,6 +60,12 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
     data_part++;
     data_len = buffer_len - (data_part - buffer);
 
+    // The message may hold more than the announced data, never use the excess.
+    if (data_len > (*command)->length)
+    {
+        data_len = (*command)->length;
+    }
+
     // Allocate memory for total length of data to read.
     (*command)->data = malloc((*command)->length + 1);
     if ((*command)->data == NULL)
-- 
2.43.0


From e843f4eb77c75233657c9c97da78fafb893aef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:01 +0000
Subject: [PATCH 02/34] fix: mlle_read_command: check continuation reads, bound
 the copy, free buffers

A lost connection in the middle of a payload was used as a length, a missing
payload was reported as success, and a record longer than the rest of the
payload overflowed it.
---
 src/common/mlle_utils.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 623dc84..dbe2a4c 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -99,22 +99,15 @@ int mlle_read_command(SSL *ssl,
     int errorCode = 0;
     char *messageBuffer = NULL;
 
-    // The SSL buffer can hold at most 16 kb of data.
-    messageBuffer = calloc(SSL_RECORD_SIZE, 1);
-    if (messageBuffer == NULL) 
-    {
-        mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the message buffer");
-        return 0;
-    }
-
     // Read data from SSL.
     bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
 
-    // Check for error.
+    // Check for error. The SSL buffer can hold at most 16 kb of data.
     if (bytesRead < 0 || bytesRead > SSL_RECORD_SIZE) 
     {
         ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
         mlle_error_set_literal(error, 1, 1, error_msg);
+        free(messageBuffer);
         return 0;
     }
 
@@ -123,6 +116,7 @@ int mlle_read_command(SSL *ssl,
     if (token_buffer == NULL) 
     {
         mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the token buffer");
+        free(messageBuffer);
         return 0;
     }
     memcpy(token_buffer, messageBuffer, bytesRead);
@@ -144,6 +138,7 @@ int mlle_read_command(SSL *ssl,
         {
             mlle_error_set_literal(error, 1, 1, error_msg);
         }
+        free(messageBuffer);
         return 0;
     }
     assert(command->id != MLLE_PROTOCOL_UNDEFINED_CMD);
@@ -158,6 +153,8 @@ int mlle_read_command(SSL *ssl,
         if (command->data == NULL)
         {
             mlle_error_set_literal(error, 1, 1, "End Of File.");
+            free(messageBuffer);
+            return 0;
         }
     }
 
@@ -167,12 +164,29 @@ int mlle_read_command(SSL *ssl,
     while (totalBytesRead < command->length)
     {
         // Read more data.
+        free(messageBuffer);
+        messageBuffer = NULL;
         bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
+        if (bytesRead < 0)
+        {
+            mlle_error_set_literal(error, 1, 1, "Connection lost while reading data.");
+            free(command->data);
+            command->data = NULL;
+            return 0;
+        }
+
+        // Never use more data than was announced.
+        if ((size_t) bytesRead > command->length - totalBytesRead)
+        {
+            bytesRead = (int) (command->length - totalBytesRead);
+        }
 
         // Add data to command buffer.
         memcpy(command->data + totalBytesRead, messageBuffer, bytesRead);
         totalBytesRead += bytesRead;
     }
 
+    free(messageBuffer);
+
     return 1;
 }
-- 
2.43.0


From 295e1da8608395acbacf78161f9ab688497107f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:38 +0000
Subject: [PATCH 03/34] fix: reject commands whose data part is missing or
 incomplete

Such a command was handled with a NULL payload (crash) or with bytes that
were never received.
---
 src/lve/mlle_lve.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 71b83c2..86099e2 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -83,7 +83,16 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
     if (mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM)
     {
         // Extract data from message.
-        extract_data(&command, buffer, buffer_len);
+        size_t data_len = extract_data(&command, buffer, buffer_len);
+
+        if (command->data == NULL || data_len < command->length)
+        {
+            free(command->data);
+            command->data = NULL;
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR,
+                    "Data part of message is missing or incomplete.");
+            return current_state;
+        }
     }
 
     switch (current_state) {
-- 
2.43.0


From 78b9c28c2031cf5da5ec8a2509e53fa7c3efa7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:39 +0000
Subject: [PATCH 04/34] fix: answer a LIB command that sets no library with an
 error

The tool got no reply at all, and the session went on as if a library had
been named, so that FILE opened paths outside of any library and skipped the
global licence check.
---
 src/lve/mlle_lve.c         |  6 ++++++
 src/lve/mlle_lve_libpath.c | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 86099e2..45820b4 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -125,10 +125,16 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
         else
         {
             mlle_lve_libpath(lve_ctx, command, is_in_checkout_feature_without_tool_mode);
+            if (lve_ctx->libpath == NULL) {
+                next_state = current_state; // No library has been set.
+            }
         }
         break;
     case MLLE_LVE_STATE_LIB:
         mlle_lve_libpath(lve_ctx, command, is_in_checkout_feature_without_tool_mode);
+        if (lve_ctx->libpath == NULL) {
+            next_state = current_state; // No library has been set.
+        }
         break;
 
     case MLLE_LVE_STATE_LICENSE:
diff --git a/src/lve/mlle_lve_libpath.c b/src/lve/mlle_lve_libpath.c
index 07c2a89..d9fce48 100644
--- a/src/lve/mlle_lve_libpath.c
+++ b/src/lve/mlle_lve_libpath.c
@@ -64,6 +64,10 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
     if ((command->data == NULL) || (command->length == 0)) {
         lve_ctx->tool_error_type = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
         lve_ctx->tool_error_msg = "Path to library is missing.";
+        if (!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(lve_ctx->ssl, lve_ctx->tool_error_type,
+                            lve_ctx->tool_error_msg);
+        }
         return 0;
     }
 
@@ -88,6 +92,13 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
         lve_ctx->tool_error_type = MLLE_PROTOCOL_OTHER_ERROR;
         lve_ctx->tool_error_msg =
             "Failed to allocate memory for decryption context.";
+        free(lve_ctx->libpath);
+        lve_ctx->libpath = NULL;
+        lve_ctx->path_size = 0;
+        if (!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(lve_ctx->ssl, lve_ctx->tool_error_type,
+                            lve_ctx->tool_error_msg);
+        }
         return 0;
     }
     /* Check global licence, if defined. */
-- 
2.43.0


From bdd48a2a5d791945f10b61c00835466ccba3c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:41 +0000
Subject: [PATCH 05/34] fix: treat a client without certificate as an unknown
 tool

The LVE asks for, but does not require, a client certificate; without one
global_tool_pub_key is NULL and the comparison crashed.
---
 src/lve/mlle_lve_pubkey.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve_pubkey.c b/src/lve/mlle_lve_pubkey.c
index 31300b7..df59e9b 100644
--- a/src/lve/mlle_lve_pubkey.c
+++ b/src/lve/mlle_lve_pubkey.c
@@ -74,7 +74,8 @@ int validate()
     // global_tool_pub_key is the public key received in
     // the LVE:s callback method during TLS handshake.
     for (i = 0; i < PUBLIC_KEY_TOOL_NUM; i++){
-        if (strcmp(global_tool_pub_key, PUBLIC_KEY_TOOL[i]) == 0)
+        if (global_tool_pub_key != NULL
+            && strcmp(global_tool_pub_key, PUBLIC_KEY_TOOL[i]) == 0)
         {
             /* Found matching key. */
             break;            
-- 
2.43.0


From 2ab00146ef1f0c127fcf62b20ac5be1565ac6f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:42 +0000
Subject: [PATCH 06/34] fix: mlle_send_error: take the length of the message
 after the NULL check

---
 src/common/mlle_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 905234c..e0742c4 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -284,10 +284,10 @@ void mlle_send_number_and_length_form(SSL *ssl,
 
 void mlle_send_error(SSL *ssl, long error_code, const char *error_msg)
 {
-    size_t length = strlen(error_msg);
     if (error_msg != NULL) {
         mlle_send_number_and_length_form(ssl, MLLE_PROTOCOL_ERROR_CMD,
-                                         error_code, length, error_msg);
+                                         error_code, strlen(error_msg),
+                                         error_msg);
     } else {
         mlle_send_number_and_length_form(ssl, MLLE_PROTOCOL_ERROR_CMD,
                                          error_code, 0, "");
-- 
2.43.0


From f0693e5eb6373502c27b8bb8ccd66ebd94230925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:44 +0000
Subject: [PATCH 07/34] fix: do not let FILE requests leave the library
 directory

---
 src/lve/mlle_lve_file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lve/mlle_lve_file.c b/src/lve/mlle_lve_file.c
index 76067ee..e31d475 100644
--- a/src/lve/mlle_lve_file.c
+++ b/src/lve/mlle_lve_file.c
@@ -46,6 +46,13 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
         goto CLEANUP;
     }
 
+    /* The file must be inside the library. */
+    if (command->length == 0 || strstr(command->data, "..") != NULL) {
+        error_code = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
+        error_msg = "File path is empty or contains \"..\".";
+        goto CLEANUP;
+    }
+
     /* Concatenate path. */
     path_size = lve_ctx->path_size + command->length + 2; /* 1 extra for a '/', 1 for null char */
     file_path = malloc(path_size);
-- 
2.43.0


From a46e0cd4a0a7bed21f7117336a062d8bebceb2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:52 +0000
Subject: [PATCH 08/34] fix: mlle_cr_decrypt: reject input that is too short or
 has no usable key mask

Input shorter than IV and MAC was read out of bounds, a failure to find the
key mask was taken for a request to strip a mask from the data, and data
shorter than the mask gave a negative length and reads before the buffer.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 2e24f34..47a44ed 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -18,6 +18,7 @@
 
 #define _XOPEN_SOURCE 700
 
+#include <limits.h>
 #include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
@@ -280,6 +281,8 @@ int mlle_cr_decrypt(
     /* Split incoming data. */
     iv_in   = (unsigned char*) in;
     if (in) {
+        if (in_len < iv_len + mac_len || in_len > INT_MAX)
+            goto error;
         enc_in = iv_in + iv_len;
         mac_in = iv_in + in_len - mac_len;
         enc_len = (int)(in_len - iv_len - mac_len);
@@ -290,9 +293,14 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     if (context && rel_file_path) {
         restore_mask_flag = mlle_demask_key(context, rel_file_path, MLLE_CR_KEY);
+        if (restore_mask_flag < 0)
+            goto error;
     }
 #endif
-    if (!in) return 0;
+    if (!in) {
+        res = 0;
+        goto error;
+    }
 
     if (!EVP_DecryptInit_ex(c_ctx, cipher, NULL, MLLE_CR_KEY, iv_in))
         goto error;
@@ -323,6 +331,8 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     /* check if this is a package.moc file and save the key into cache */
     if (restore_mask_flag) {
+        if (out_len < MLLE_CR_KEY_LEN)
+            goto error;
         out_len -= MLLE_CR_KEY_LEN; /* take out key length from the data sent back*/
         if (mlle_store_keymask(context, rel_file_path, out + out_len) < 0)
             goto error;
-- 
2.43.0


From 2d17b6b89786e7cb0dba363f8e84c1d80fc07e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:53 +0000
Subject: [PATCH 09/34] fix: decrypt files in folders without package.moc and
 with an empty package.mo

The recursion to the parent folder returned 1, which made mlle_cr_decrypt()
cut the last 32 bytes off the file; an empty package.mo was taken for a
decryption error.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 47a44ed..0958b91 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -152,12 +152,15 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     if (error) {
         /* assume that no file exists; read mask from parent */
         ret = mlle_demask_key(context, path, key);
+        if (ret > 0) {
+            ret = 0; /* the file itself is not a package.moc, it does not hold a mask */
+        }
     }
     else {
         out_buffer = malloc(file_size);
         if (file_buffer && out_buffer) {
             int ret_code = mlle_cr_decrypt(context, path, file_buffer, file_size, out_buffer);
-            if (ret_code > 0) {
+            if (ret_code >= 0) {
                 /* key mask is now in the hash but it's also the tail in the outbuffer */
                 for (i = 0; i < MLLE_CR_KEY_LEN; ++i) {
                     key[i] = key[i] ^ out_buffer[ret_code + i];
-- 
2.43.0


From 451d5463056fe700b7d3cf5e265448d97b49cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:55 +0000
Subject: [PATCH 10/34] fix: mlle_demask_key: reject paths that leave no room
 for package.moc

---
 src/decryptors/default/src/mlle_cr_decrypt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 0958b91..5280bba 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -97,6 +97,9 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
         i++;
     }
     rel_path_len = i;
+    if (rel_path_len + sizeof("/package.moc") > sizeof(path)) {
+        return -1;
+    }
     path[last_slash_index] = 0;
     
     if (last_slash_index) {
-- 
2.43.0


From 1f5d93785316ad04f1395ac58e06f5f94749605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:57 +0000
Subject: [PATCH 11/34] fix: fail encryption when no random IV or key mask can
 be generated

---
 src/decryptors/default/src/mlle_cr_encrypt.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decryptors/default/src/mlle_cr_encrypt.c b/src/decryptors/default/src/mlle_cr_encrypt.c
index a91c6c3..5ceaaf1 100644
--- a/src/decryptors/default/src/mlle_cr_encrypt.c
+++ b/src/decryptors/default/src/mlle_cr_encrypt.c
@@ -131,7 +131,9 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
         }
 
         /* Create and store key mask for this directory */
-        RAND_bytes(store_mask, MLLE_CR_KEY_LEN);
+        if (RAND_bytes(store_mask, MLLE_CR_KEY_LEN) != 1) {
+            return -1;
+        }
         map_item = (struct mlle_key_mask_map*)calloc(1, sizeof(struct mlle_key_mask_map) + rel_path_len + 1);
         if (map_item == NULL) {
             return -1;
@@ -235,7 +237,8 @@ int mlle_cr_encrypt(mlle_cr_context* context,
 
     /* Create IV and write it to file. */
     iv = (unsigned char*) malloc(iv_len);
-    RAND_bytes(iv, iv_len);
+    if (!iv || RAND_bytes(iv, iv_len) != 1)
+        goto error;
     if (fwrite(iv, iv_len, 1, out) < 1)
         goto error;
 
-- 
2.43.0


From cbb96c92f86b89f78c8be2d88b3f25abb5d5e14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:58 +0000
Subject: [PATCH 12/34] fix: mlle_spawn: close the child's pipe end in the tool
 and all ends on failure

The tool kept the write end of the pipe it reads from, so that it never saw
end of file when the executable died.
---
 src/tool/mlle_spawn_posix.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 3046735..69cf61a 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -66,6 +66,8 @@ mlle_spawn(const char *exec_name,
     status = pipe(child_to_parent_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
+        close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
         return NULL;
     }
 
@@ -73,6 +75,10 @@ mlle_spawn(const char *exec_name,
     switch (child_pid) {
     case -1:
         mlle_error_set_literal(error, 1, 1, "fork() failed.");
+        close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_READ_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         return NULL;
 
     case 0:
@@ -99,12 +105,15 @@ mlle_spawn(const char *exec_name,
 
     default:
         close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         connections = calloc(1, sizeof(*connections));
         if (connections != NULL) {
             connections->fd_to_child = parent_to_child_pipe_fd[PIPE_WRITE_INDEX];
             connections->fd_from_child = child_to_parent_pipe_fd[PIPE_READ_INDEX];
         } else {
             mlle_error_set_literal(error, 1, 1, "Out of memory.");
+            close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
+            close(child_to_parent_pipe_fd[PIPE_READ_INDEX]);
         }
     }
 
-- 
2.43.0


From e167c88715a64483f94aae90b019b5d04aac0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:00 +0000
Subject: [PATCH 13/34] fix: mlle_tool_version: report an error when the
 command cannot be sent

---
 src/tool/mlle_licensing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index b2648b3..c947857 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -214,6 +214,8 @@ int mlle_tool_version(const struct mlle_connections *connections,
 
     if (mlle_send_number_form(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, 
         max_protocol_version) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send the VERSION command.");
         return 0;
     }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, &command, error)) {
-- 
2.43.0


From 3a6e769a436326f4a5b50a110652fa6ed28862f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:11 +0000
Subject: [PATCH 14/34] fix: ssl_get_error_string: always set the message

With an empty OpenSSL error queue (for example when the peer closed the pipe)
the callers reported uninitialised memory.
---
 src/common/mlle_ssl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index a7de6d3..c5e6d6f 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -443,6 +443,9 @@ void ssl_get_error_string(int error_code, char *error, size_t error_len)
             break;
     }
 
+    /* There may be no queued reason. */
+    snprintf(error, error_len, "%s", err_str);
+
     while ((error_value = ERR_get_error()) > 0)
     {
         snprintf(error, error_len, "%s. reason: %s", err_str, (char*) ERR_reason_error_string(error_value));
-- 
2.43.0


From 42b7d1a5b304165e266a369a676083ecdb9b93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:41 +0000
Subject: [PATCH 15/34] fix: lve --checkout-feature: do not send licence errors
 to a missing connection

A licence manager that cannot be set up crashed the command line mode.
---
 src/lve/mlle_lve_feature.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve_feature.c b/src/lve/mlle_lve_feature.c
index 68a7c9d..eca7082 100644
--- a/src/lve/mlle_lve_feature.c
+++ b/src/lve/mlle_lve_feature.c
@@ -59,7 +59,13 @@ mlle_lve_feature(struct mlle_lve_ctx *lve_ctx,
     struct mlle_error *error = NULL;
     int success = 0;
 
-    if (!mlle_lve_setup_licensing_check_error(lve_ctx)) {
+    if (is_in_checkout_feature_without_tool_mode) {
+        /* There is no connection to send an error to. */
+        if (!mlle_lve_setup_licensing(lve_ctx, &error)) {
+            mlle_error_free(&error);
+            return 0;
+        }
+    } else if (!mlle_lve_setup_licensing_check_error(lve_ctx)) {
         return 0;
     }
 
-- 
2.43.0


From 6782aacbc1335a231f0b700887e84aba06fefb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:42 +0000
Subject: [PATCH 16/34] fix: lve: report an option without value instead of
 crashing

---
 src/lve/lve.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lve/lve.c b/src/lve/lve.c
index 6d5e7a1..7b325ec 100644
--- a/src/lve/lve.c
+++ b/src/lve/lve.c
@@ -233,6 +233,11 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i >= argc) {
+                fprintf(stderr,
+                        "Error: Option --checkout-feature requires a value");
+                goto error;
+            }
             checkout_feature_sz =
                 (strlen(argv[i]) + 1) * sizeof(*checkout_feature);
             checkout_feature = malloc(checkout_feature_sz);
@@ -250,6 +255,10 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i >= argc) {
+                fprintf(stderr, "Error: Option --libpath requires a value");
+                goto error;
+            }
             libpath_sz = (strlen(argv[i]) + 1) * sizeof(*libpath);
             libpath = malloc(libpath_sz);
             if (libpath == NULL) {
-- 
2.43.0


From 63d279f022e6b8d97afa6dc77f22f0975014f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:24 +0000
Subject: [PATCH 17/34] fix: encrypt_file: write to the file named on the
 command line

Without <basedirdest> the 'c' was dropped from the output name, so that
"encrypt_file package.mo package.moc" overwrote its input.
---
 src/encrypt_decrypt/encrypt_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index a55e112..0e84579 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -85,12 +85,12 @@ int main(int argc, char** argv)
     }    
     else {
         char* fname = encrypted + strlen(encrypted);
+        snprintf(pathdest, 4096, "%s", encrypted);
         fname--;
         if (*fname == 'c') {
             *fname = '\0';
         }
         c = mlle_cr_create("");
-        snprintf(pathdest, 4096, "%s", encrypted);
         while (fname != encrypted) {
             char ch = *(fname - 1);
             if (ch == '/' || ch == '\\') break;
-- 
2.43.0


From bff8346132eca19146768bd52fb42f63599db45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:26 +0000
Subject: [PATCH 18/34] fix: encrypt_file, decrypt_file: fail when the output
 cannot be flushed

With a full disk the last buffered data was lost and success reported.
---
 src/encrypt_decrypt/decrypt_file.c | 6 ++++--
 src/encrypt_decrypt/encrypt_file.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 0d09cf4..5ae5411 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -91,8 +91,10 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0 && res == 0) {
+        fprintf(stderr, "Could not write file %s. Error message was: %s\n", argv[3], strerror(errno));
+        res = 1;
+    }
     if (out != NULL && res != 0)
         remove(argv[3]);
 
diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index 0e84579..e95d4fe 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -116,8 +116,10 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0 && res == 0) {
+        fprintf(stderr, "Could not write file %s. Error message was: %s\n", pathdest, strerror(errno));
+        res = 1;
+    }
     if (out != NULL && res != 0)
         remove(pathdest);
 
-- 
2.43.0


From 1442aa450c72072a519e35ed98c042ce2fefa934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:03 +0000
Subject: [PATCH 19/34] fix: packagetool: fail when a file cannot be copied
 completely

Read errors were printed and ignored, write errors not even noticed.
---
 src/packagetool/utils.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index e26cbdc..10e38f7 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -2076,6 +2076,7 @@ int copyFile(char *fromPath, char *toPath)
         printf("Error: When copying file: Failed to read from file "
                "\"%s\".\n",
                fromPath);
+        goto error;
     }
 
     fdWrite = fopen(toPath, "wb");
@@ -2085,11 +2086,14 @@ int copyFile(char *fromPath, char *toPath)
             toPath, strerror(errno));
         goto error;
     }
-    fwrite(data, sizeof(char), buffSize, fdWrite);
-    if (bytes != buffSize) {
+    bytes = fwrite(data, sizeof(char), buffSize, fdWrite);
+    status = fclose(fdWrite);
+    fdWrite = NULL;
+    if (bytes != buffSize || status != 0) {
         printf("Error: When copying file: Failed to write to file "
                "\"%s\".\n",
                toPath);
+        goto error;
     }
 
 #ifndef WIN32
-- 
2.43.0


From 294862d0216caf819f6053ac19b54da5c9af02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:04 +0000
Subject: [PATCH 20/34] fix: packagetool: fail when a file or folder cannot be
 staged

Files that could not be copied were silently left out of the archive.
---
 src/packagetool/utils.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 10e38f7..246e350 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -2005,13 +2005,18 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                              dir->d_name);
                     // TODO Create folder name.
 
-                    if (mkdir(searchPathTo, 0777) == -1) {
+                    if (mkdir(searchPathTo, 0777) == -1 && errno != EEXIST) {
                         printf("Error: Failed to create folder %s.\n",
                                searchPathTo);
+                        result = 0;
+                        break;
                     }
 
                     // Use recursive to check the folder we found.
-                    copyDirectoryLinux(searchPath, searchPathTo);
+                    if (!copyDirectoryLinux(searchPath, searchPathTo)) {
+                        result = 0;
+                        break;
+                    }
                 }
                 // Or a file?
                 else if (dir->d_type == DT_REG) {
@@ -2019,7 +2024,10 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
 
                     // file in new location.
                     snprintf(folderName, MAX_PATH_LENGTH, "%s/%s", toPath, dir->d_name);
-                    copyFile(searchPath, folderName);
+                    if (!copyFile(searchPath, folderName)) {
+                        result = 0;
+                        break;
+                    }
 
                 }
             }
-- 
2.43.0


From 55397a1fb52b04565b37f1468c2ac0139598a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:05 +0000
Subject: [PATCH 21/34] fix: packagetool: encryptFile: close only open files,
 notice write errors

---
 src/packagetool/utils.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 246e350..0a10bf5 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1273,7 +1273,7 @@ int isEncryptedFile(char *filename)
 int encryptFile(mlle_cr_context *context, const char *basedir,
                 const char *rel_file_path)
 {
-    FILE *in, *out;
+    FILE *in = NULL, *out = NULL;
     int result = 1;
     char file[LONG_FILE_NAME_MAX];
     char newFile[LONG_FILE_NAME_MAX];
@@ -1300,8 +1300,13 @@ int encryptFile(mlle_cr_context *context, const char *basedir,
         result = 0;
     }
 
-    fclose(in);
-    fclose(out);
+    if (in != NULL) {
+        fclose(in);
+    }
+    if (out != NULL && fclose(out) != 0) {
+        printf("Error: Couldn't write file %s.\n", newFile);
+        result = 0;
+    }
 
     return result;
 }
-- 
2.43.0


From 9699bb23046233f339b1577e526c0d2c28252515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:06 +0000
Subject: [PATCH 22/34] fix: packagetool: do not drop Package.mo and the like
 from encrypted libraries

Only package.mo in lower case is encrypted up front; other spellings were
skipped by the encryption and, as cleartext, by the archiving.
---
 src/packagetool/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 0a10bf5..877ff3b 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1052,7 +1052,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
-                strcasecmp(dir->d_name, "package.mo") != 0) {
+                strcmp(dir->d_name, "package.mo") != 0) {
                 if (relPath) {
                     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s/%s", relPath,
                              dir->d_name);
-- 
2.43.0


From ce48d9bce0395a1d25fe98c6d1d322da5965fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:08 +0000
Subject: [PATCH 23/34] fix: packagetool: fail when the manifest cannot be
 written

---
 src/packagetool/manifest.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 5b652b9..9624000 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -183,12 +183,17 @@ int createManifestFile()
 {
     char *path = NULL;
     char pathAndFile[MAX_PATH_LENGTH + 1];
+    int failed = 0;
 
     // Add filename to path to .library.
     path = getDotLibraryPath();
     snprintf(pathAndFile, MAX_PATH_LENGTH + 1, "%s/manifest.xml", path);
 
     fd = fopen(pathAndFile, "w");
+    if (fd == NULL) {
+        printf("Error: Failed to create %s.\n", pathAndFile);
+        return 0;
+    }
 
     // Add data to file.
     xml_init();
@@ -200,7 +205,11 @@ int createManifestFile()
     addDependencies();
     addFooter();
 
-    fclose(fd);
+    failed = ferror(fd);
+    if (fclose(fd) != 0 || failed) {
+        printf("Error: Failed to write %s.\n", pathAndFile);
+        return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From ae1b6809054db348e798e813a4a879fb55e4130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:11 +0000
Subject: [PATCH 24/34] fix: tool library: report requests that cannot be sent
 instead of waiting for a reply

---
 src/common/mlle_io.c      | 18 ++++++++++--------
 src/common/mlle_io.h      |  4 ++--
 src/tool/mlle_licensing.c | 36 ++++++++++++++++++++++++++++++------
 3 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index e0742c4..d31036a 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -206,10 +206,11 @@ int mlle_send_number_form(SSL *ssl, enum mlle_protocol_command_id command_id,
     return result;
 }
 
-void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
-                           size_t length, // Length of data.
-                           const char *data)
+int mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
+                          size_t length, // Length of data.
+                          const char *data)
 {
+    int result = -1;
     int print_result = 0;
     size_t message_length = 0;
     char *output = NULL;
@@ -219,7 +220,7 @@ void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
     output_length = NUMBER_FORM_BUFFER_SIZE + length + 1;
     output = malloc(output_length);
     if (output == NULL) {
-        return;
+        return -1;
     }
 
     // Add command and length to array.
@@ -232,19 +233,20 @@ void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
         message_length = length + print_result;
 
         // Send array
-        ssl_write_message(ssl, output, message_length);
+        result = ssl_write_message(ssl, output, message_length);
     }
 
     memset(output, 0, message_length);
     free(output);
+    return result;
 }
 
-void mlle_send_string(SSL *ssl, enum mlle_protocol_command_id command_id,
-                      const char *string)
+int mlle_send_string(SSL *ssl, enum mlle_protocol_command_id command_id,
+                     const char *string)
 {
     size_t length = strlen(string);
 
-    mlle_send_length_form(ssl, command_id, length, string);
+    return mlle_send_length_form(ssl, command_id, length, string);
 }
 
 void mlle_send_number_and_length_form(SSL *ssl,
diff --git a/src/common/mlle_io.h b/src/common/mlle_io.h
index c47d45b..c101989 100644
--- a/src/common/mlle_io.h
+++ b/src/common/mlle_io.h
@@ -64,10 +64,10 @@ void mlle_send_simple_form(SSL *ssl, enum mlle_protocol_command_id command_id);
 int mlle_send_number_form(SSL *ssl, enum mlle_protocol_command_id command_id,
                           long number);
 
-void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
+int mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
                            size_t length, const char *data);
 
-void mlle_send_string(SSL *ssl, enum mlle_protocol_command_id command,
+int mlle_send_string(SSL *ssl, enum mlle_protocol_command_id command,
                       const char *string);
 
 void mlle_send_number_and_length_form(SSL *ssl,
diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index c947857..b8f03c2 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -261,7 +261,11 @@ int mlle_tool_libpath(const struct mlle_connections *connections,
 
     assert(absolute_path != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_LIB_CMD, absolute_path);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_LIB_CMD, absolute_path) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send the LIB command.");
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD, &command, error)) {
         return 0;
     }
@@ -296,7 +300,11 @@ int mlle_tool_feature(const struct mlle_connections *connections,
 
     assert(feature != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_FEATURE_CMD, feature);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_FEATURE_CMD, feature) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send the FEATURE command.");
+        return 0;
+    }
     if (!mlle_expect_commands(connections->ssl, 2, expected_commands,
             &command, error))
     {
@@ -327,7 +335,11 @@ mlle_tool_returnfeature(const struct mlle_connections *connections,
 
     assert(feature != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNFEATURE_CMD, feature);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNFEATURE_CMD, feature) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send the RETURNFEATURE command.");
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD,
             &command, error))
     {
@@ -351,7 +363,11 @@ mlle_tool_license(const struct mlle_connections *connections,
 
     assert(package != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_LICENSE_CMD, package);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_LICENSE_CMD, package) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send the LICENSE command.");
+        return 0;
+    }
     if (!mlle_expect_commands(connections->ssl, 3, expected_commands,
             &command, error))
     {
@@ -384,7 +400,11 @@ mlle_tool_returnlicense(const struct mlle_connections *connections,
 
     assert(package != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNLICENSE_CMD, package);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNLICENSE_CMD, package) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send the RETURNLICENSE command.");
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD,
             &command, error))
     {
@@ -404,7 +424,11 @@ mlle_tool_file(const struct mlle_connections *connections,
 
     assert(file_path != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_FILE_CMD, file_path);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_FILE_CMD, file_path) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send the FILE command.");
+        return NULL;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_FILECONT_CMD,
             &command, error))
     {
-- 
2.43.0


From 815308e293b378cd6a0c5fe2e7a8a8b2c574c5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:59 +0000
Subject: [PATCH 25/34] fix: wipe embedded keys with stores the compiler cannot
 drop, over their full size

---
 src/embedfile/obfuscate_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index 32046bd..258c694 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -91,7 +91,9 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
     write_initialize_key_macro_body(out, type, name, data, len);
     fprintf(out, "%s[%d] = '\\0'; } while (0)\n", name, len);
 
-    fprintf(out, "#define CLEAR_%s() memset(%s, 0, %s_LEN)\n", name, name, name);
+    /* Not memset(), the compiler may drop it when the array is not used afterwards. */
+    fprintf(out, "#define CLEAR_%s() do { volatile unsigned char *p_ = %s; size_t n_ = sizeof(%s); while (n_--) *p_++ = 0; } while (0)\n",
+            name, name, name);
 
     write_header_extra(out, type);
 
-- 
2.43.0


From 43b2a76f56499e7d1af8a212f02357d359b937d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:28 +0000
Subject: [PATCH 26/34] fix: check allocations sized by what the peer sent
 before writing to them

---
 src/common/mlle_ssl.c      | 5 +++++
 src/lve/mlle_lve.c         | 7 +++++++
 src/lve/mlle_lve_libpath.c | 9 +++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index c5e6d6f..6f0289c 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -182,6 +182,11 @@ char* get_public_key(RSA *rsa)
     {
         key_length = BIO_pending(mem);
         public_key = (char*)malloc(key_length + 1);
+        if (public_key == NULL)
+        {
+            BIO_free(mem);
+            return NULL;
+        }
 
         // Read from memory to array.
         BIO_read(mem, public_key, key_length);
diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 45820b4..7ec7d5b 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -206,6 +206,13 @@ int mlle_lve_receive(struct mlle_lve_ctx *lve_ctx)
         {
             // Create a temporary buffer for tokens.
             tokenBuffer = malloc(bytesRead + 1);
+            if (tokenBuffer == NULL)
+            {
+                mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_OTHER_ERROR,
+                        "Couldn't allocate memory");
+                free(messageBuffer);
+                return 1;
+            }
             memcpy(tokenBuffer, messageBuffer, bytesRead);
             tokenBuffer[bytesRead] = 0;
 
diff --git a/src/lve/mlle_lve_libpath.c b/src/lve/mlle_lve_libpath.c
index d9fce48..7daa1e1 100644
--- a/src/lve/mlle_lve_libpath.c
+++ b/src/lve/mlle_lve_libpath.c
@@ -74,6 +74,15 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
     path_size = command->length;
 
     lve_ctx->libpath = malloc(path_size + 1);
+    if (lve_ctx->libpath == NULL) {
+        lve_ctx->tool_error_type = MLLE_PROTOCOL_OTHER_ERROR;
+        lve_ctx->tool_error_msg = "Failed to allocate memory for library path.";
+        if (!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(lve_ctx->ssl, lve_ctx->tool_error_type,
+                            lve_ctx->tool_error_msg);
+        }
+        return 0;
+    }
     memcpy(lve_ctx->libpath, command->data, path_size);
     lve_ctx->libpath[path_size] = '\0';
 
-- 
2.43.0


From 08724805a75e7342a46de0fbc4d4214f91285ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:52 +0000
Subject: [PATCH 27/34] fix: report an error that could not be allocated
 instead of dereferencing NULL

---
 src/common/mlle_error.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/mlle_error.c b/src/common/mlle_error.c
index d8ded30..7fa0250 100644
--- a/src/common/mlle_error.c
+++ b/src/common/mlle_error.c
@@ -189,6 +189,11 @@ mlle_error_get_cause(struct mlle_error *error)
 char *
 mlle_error_get_message(struct mlle_error *error)
 {
+    if (error == NULL || error->message == NULL) {
+        // The error could not be recorded.
+        return "Out of memory.";
+    }
+
     return error->message;
 }
 
-- 
2.43.0


From 2ad9a4fc43652160f8516eff87f13e212d4aeee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:10 +0000
Subject: [PATCH 28/34] fix: copy tool and dependency files into the manifest
 whatever their line lengths, and fail if they cannot be read

---
 src/packagetool/manifest.c | 80 +++++++++++++++++++++++---------------
 src/packagetool/manifest.h |  9 +++--
 2 files changed, 55 insertions(+), 34 deletions(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 9624000..4153925 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -201,11 +201,15 @@ int createManifestFile()
     addLibraryHeader();
     addEncryption();
     addIcon();
-    addTools();
-    addDependencies();
+    failed = !addTools();
+    if (!addDependencies()) {
+        failed = 1;
+    }
     addFooter();
 
-    failed = ferror(fd);
+    if (ferror(fd)) {
+        failed = 1;
+    }
     if (fclose(fd) != 0 || failed) {
         printf("Error: Failed to write %s.\n", pathAndFile);
         return 0;
@@ -367,15 +371,16 @@ void addIcon()
  * These tools are read from an xml file and pasted into
  * the manifest.xml file.
  *************************************************************/
-void addTools()
+int addTools()
 {
     char *path = NULL;
 
     // Get value from command line argument.
     if ( (containsKey(ARGUMENT_TOOLS_FILE)) && (path = getValueOf(ARGUMENT_TOOLS_FILE)) )
     {
-        copyFileInformation(path);
+        return copyFileInformation(path);
     }
+    return 1;
 }
 
 
@@ -384,15 +389,16 @@ void addTools()
  * These dependencies are read from an xml file and pasted into
  * the manifest.xml file.
  ***************************************************************/
-void addDependencies()
+int addDependencies()
 {
     char *path = NULL;
 
     // Get value from command line argument.
     if ( (containsKey(ARGUMENT_DEPENDENCIES_FILE)) && (path = getValueOf(ARGUMENT_DEPENDENCIES_FILE)) )
     {
-        copyFileInformation(path);
+        return copyFileInformation(path);
     }
+    return 1;
 }
 
 /********************************
@@ -448,41 +454,53 @@ char *extractPlatform(char *fileName)
  * Copy everything from an xml-file apart from the first line
  * and paste it into the manifest.xml file.
  ***************************************************************/
-void copyFileInformation(char *path)
+int copyFileInformation(char *path)
 {
     FILE *xmlfile;
-    char ch;
-    int index = 0;
+    int ch;
     int firstLine = 1;
-    char lineBuffer[200] = {'\0'};
+    int newLine = 1;
+    int failed = 0;
 
-    if ( (xmlfile = fopen(path, "r")))
+    xmlfile = fopen(path, "r");
+    if (xmlfile == NULL)
     {
-        ch = getc(xmlfile);
+        printf("Error: Couldn't open file %s for reading.\n", path);
+        return 0;
+    }
 
-        while (ch != EOF)
+    while ((ch = getc(xmlfile)) != EOF)
+    {
+        // Skip first line in the file.
+        if (!firstLine)
         {
-            if (ch != '\n')
+            if (newLine)
             {
-                lineBuffer[index] = ch;
-                ++index;
+                add_xml_indent();
             }
-            else
-            {
-                // Skip first line in the file.
-                if (!firstLine)
-                {
-                    add_xml_indent();
-                    fprintf(fd, "%s\n", lineBuffer);
-                }
-
-                memset(&lineBuffer[0], 0, sizeof(lineBuffer));
-                index = 0;
-                firstLine = 0;
-            }
-            ch = getc(xmlfile);
+            fputc(ch, fd);
+        }
+
+        newLine = (ch == '\n');
+        if (newLine)
+        {
+            firstLine = 0;
         }
     }
+    // Terminate the last line.
+    if (!firstLine && !newLine)
+    {
+        fputc('\n', fd);
+    }
+
+    failed = ferror(xmlfile);
     fclose(xmlfile);
     xml_on_new_line = 1;
+
+    if (failed)
+    {
+        printf("Error: Couldn't read file %s.\n", path);
+        return 0;
+    }
+    return 1;
 }
diff --git a/src/packagetool/manifest.h b/src/packagetool/manifest.h
index dc85627..fdc3ab9 100644
--- a/src/packagetool/manifest.h
+++ b/src/packagetool/manifest.h
@@ -55,14 +55,14 @@ void addEncryption();
  * These tools are read from an xml file and pasted into
  * the manifest.xml file.
  *************************************************************/
-void addTools();
+int addTools();
 
 /****************************************************************
  * This method add libraries that library depends on.
  * These dependencies are read from an xml file and pasted into
  * the manifest.xml file.
  ***************************************************************/
-void addDependencies();
+int addDependencies();
 
 /*******************************
  * Add the footer to the file.
@@ -86,5 +86,8 @@ char *extractPlatform(char *filename);
  *
  * Parameters:
  *      path - path, including filename, to the xml-file.
+ *
+ * Returns:
+ *      1 for success and 0 for failure.
  ***************************************************************/
-void copyFileInformation(char *path);
+int copyFileInformation(char *path);
-- 
2.43.0


From de5e6b534fd89a39b26697e7030bd9fd909a240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:31 +0000
Subject: [PATCH 29/34] fix: fail if the package.mo of a library folder cannot
 be read instead of leaving it out

---
 src/packagetool/utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 877ff3b..a242ac8 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1045,6 +1045,9 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
         } else {
             result = encryptFile(context, topLevelPath, "package.mo");
         }
+    } else if (errno != ENOENT) {
+        printf("Error: Couldn't open file %s for reading.\n", searchPath);
+        result = 0;
     }
 
     if (result && (d = opendir(fullPath))) {
-- 
2.43.0


From 0a8867013365aada520be2b73302156c9abc9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:31 +0000
Subject: [PATCH 30/34] fix: report that the staging folder cannot be created
 instead of copying a null string

---
 src/packagetool/utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index a242ac8..b8ed200 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -167,7 +167,10 @@ static char *getTempDirLinux()
     char TEMP_DIR_TEMPLATE[] = "/tmp/TemporaryFolderXXXXXX";
 
     if (tempStagingFolder == NULL) {
-        tempStagingFolder = strdup(mkdtemp(TEMP_DIR_TEMPLATE));
+        if (mkdtemp(TEMP_DIR_TEMPLATE) == NULL) {
+            return NULL;
+        }
+        tempStagingFolder = strdup(TEMP_DIR_TEMPLATE);
         DEBUG_PRINT("%s, tempStagingFolder = %s\n", __func__,
                     tempStagingFolder);
     }
-- 
2.43.0


From 3705f13c843c53d64c3092528f40d76316b1c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:42 +0000
Subject: [PATCH 31/34] fix: remove the incomplete archive when creating it
 fails

---
 src/packagetool/utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index b8ed200..a8c58dd 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1381,6 +1381,10 @@ int createZipArchive()
 #endif
 error:
     closeZipArchive(zip);
+    if (1 != result && zip != NULL) {
+        // Do not leave an incomplete archive behind.
+        remove(archiveName);
+    }
     return result;
 }
 
-- 
2.43.0


From a30e479b0f2f88a23e3709c070875fe07b980ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:05 +0000
Subject: [PATCH 32/34] fix: encrypt_file, decrypt_file: refuse names that do
 not fit instead of overflowing or cutting them

---
 src/encrypt_decrypt/decrypt_file.c |  5 ++++-
 src/encrypt_decrypt/encrypt_file.c | 11 +++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 5ae5411..3af40cd 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -66,7 +66,10 @@ int main(int argc, char** argv)
     OPENSSL_config(NULL);
 
     /* Open input and output files. */
-    snprintf(path, sizeof(path), "%s/%s", argv[1], argv[2]);
+    if (snprintf(path, sizeof(path), "%s/%s", argv[1], argv[2]) >= (int)sizeof(path)) {
+        fprintf(stderr, "The path of the encrypted file is too long.\n");
+        exit(1);
+    }
     in = fopen(path, "rb");
     if (in == NULL)
         fprintf(stderr, "Could not open file %s for reading. Error message was: %s\n", path, strerror(errno));
diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index e95d4fe..0ffafb7 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -69,11 +69,18 @@ int main(int argc, char** argv)
         fprintf(stderr, "Could not open file %s for reading. Error message was: %s\n", argv[1], strerror(errno));
         exit(1);
     }
+    if (argv[2][0] == '\0' || strlen(argv[2]) >= sizeof(encrypted)) {
+        fprintf(stderr, "The name of the encrypted file is empty or too long.\n");
+        exit(1);
+    }
     strcpy(encrypted, argv[2]);
     if (argc == 4) {
         destdir = argv[3];
         c = mlle_cr_create(destdir);
-        snprintf(pathdest, 4096, "%s/%s", destdir, encrypted);
+        if (snprintf(pathdest, sizeof(pathdest), "%s/%s", destdir, encrypted) >= (int)sizeof(pathdest)) {
+            fprintf(stderr, "The path of the encrypted file is too long.\n");
+            exit(1);
+        }
         /* find out what keymask to use by decrypting
         all package.moc recursively if present.
             */
@@ -96,7 +103,7 @@ int main(int argc, char** argv)
             if (ch == '/' || ch == '\\') break;
             fname--;
         }
-        strcpy(encrypted, fname);
+        memmove(encrypted, fname, strlen(fname) + 1);
     }
     
     out = fopen(pathdest, "wb");
-- 
2.43.0


From bf640e62ccd3bff78d71915ce85a1561c056407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:05 +0000
Subject: [PATCH 33/34] fix: encrypt_file, decrypt_file: fail before creating
 the output if there is no context

---
 src/encrypt_decrypt/decrypt_file.c | 1 +
 src/encrypt_decrypt/encrypt_file.c | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 3af40cd..5ab05b1 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -58,6 +58,7 @@ int main(int argc, char** argv)
     c = mlle_cr_create(argv[1]);
     if (NULL == c) {
         fprintf(stderr, "Could not create decryption context object\n");
+        exit(1);
     }
 
     /* OpenSSL initialization stuff. */
diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index 0ffafb7..b2a7987 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -77,6 +77,10 @@ int main(int argc, char** argv)
     if (argc == 4) {
         destdir = argv[3];
         c = mlle_cr_create(destdir);
+        if (c == NULL) {
+            fprintf(stderr, "Could not create encryption context object\n");
+            exit(2);
+        }
         if (snprintf(pathdest, sizeof(pathdest), "%s/%s", destdir, encrypted) >= (int)sizeof(pathdest)) {
             fprintf(stderr, "The path of the encrypted file is too long.\n");
             exit(1);
@@ -98,6 +102,10 @@ int main(int argc, char** argv)
             *fname = '\0';
         }
         c = mlle_cr_create("");
+        if (c == NULL) {
+            fprintf(stderr, "Could not create encryption context object\n");
+            exit(2);
+        }
         while (fname != encrypted) {
             char ch = *(fname - 1);
             if (ch == '/' || ch == '\\') break;
-- 
2.43.0


From c2e235ebcd7fa8a52c5e071b8960cac34c05dd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:05 +0000
Subject: [PATCH 34/34] fix: do not let a refused LIB message replace the
 reason why a tool is not allowed

---
 src/lve/mlle_lve_libpath.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/lve/mlle_lve_libpath.c b/src/lve/mlle_lve_libpath.c
index 7daa1e1..8d37d22 100644
--- a/src/lve/mlle_lve_libpath.c
+++ b/src/lve/mlle_lve_libpath.c
@@ -62,11 +62,9 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
 
     // Is there something to check?
     if ((command->data == NULL) || (command->length == 0)) {
-        lve_ctx->tool_error_type = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
-        lve_ctx->tool_error_msg = "Path to library is missing.";
         if (!is_in_checkout_feature_without_tool_mode) {
-            mlle_send_error(lve_ctx->ssl, lve_ctx->tool_error_type,
-                            lve_ctx->tool_error_msg);
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR,
+                            "Path to library is missing.");
         }
         return 0;
     }
@@ -75,11 +73,9 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
 
     lve_ctx->libpath = malloc(path_size + 1);
     if (lve_ctx->libpath == NULL) {
-        lve_ctx->tool_error_type = MLLE_PROTOCOL_OTHER_ERROR;
-        lve_ctx->tool_error_msg = "Failed to allocate memory for library path.";
         if (!is_in_checkout_feature_without_tool_mode) {
-            mlle_send_error(lve_ctx->ssl, lve_ctx->tool_error_type,
-                            lve_ctx->tool_error_msg);
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_OTHER_ERROR,
+                            "Failed to allocate memory for library path.");
         }
         return 0;
     }
@@ -98,15 +94,12 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
 
     lve_ctx->cr_context = mlle_cr_create(lve_ctx->libpath);
     if (NULL == lve_ctx->cr_context) {
-        lve_ctx->tool_error_type = MLLE_PROTOCOL_OTHER_ERROR;
-        lve_ctx->tool_error_msg =
-            "Failed to allocate memory for decryption context.";
         free(lve_ctx->libpath);
         lve_ctx->libpath = NULL;
         lve_ctx->path_size = 0;
         if (!is_in_checkout_feature_without_tool_mode) {
-            mlle_send_error(lve_ctx->ssl, lve_ctx->tool_error_type,
-                            lve_ctx->tool_error_msg);
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_OTHER_ERROR,
+                            "Failed to allocate memory for decryption context.");
         }
         return 0;
     }
-- 
2.43.0

