From caa958705298f7b8e913fb39c10ecbc5f3ef549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 01/65] fix: bytes above 127 were taken for the end of the
 message stream

---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 8be8510..344def3 100644
--- a/src/message.c
+++ b/src/message.c
@@ -295,7 +295,7 @@ static __INLINE int read_character(message_stream* stream) {
 
     stream->buffer_position++;
 
-    return chr;
+    return (unsigned char) chr; // Negative values denote the end of stream
 
 }
 
-- 
2.43.0


From 113559a9a0ae1453adb1db02ed52854ab4bd62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 02/65] fix: previous message type was reported again after the
 end of stream

---
 src/message.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.c b/src/message.c
index 344def3..c60b2d5 100644
--- a/src/message.c
+++ b/src/message.c
@@ -305,6 +305,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
     list_reset(arguments);
 
+    stream->input.message_type = -1; // Do not report the type of the previous message again
+
     while (!stream->input.complete) {
 
     	char chr; 
-- 
2.43.0


From 1fbbe704ace68c4dd574ce465fa0ca9212aaeff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 03/65] fix: log exactly the bytes that were read and written

---
 src/message.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/message.c b/src/message.c
index c60b2d5..7b8d226 100644
--- a/src/message.c
+++ b/src/message.c
@@ -316,9 +316,10 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
     		if (stream->input.message_type == -1) break;
     		chr = '\n';
     		stream->input.complete = TRUE;
-    	} else chr = (char) val;
-
-        LOG_CHAR(log, chr);
+    	} else {
+            chr = (char) val;
+            LOG_CHAR(log, chr);
+        }
 
         switch (stream->input.state) {
             case PARSE_STATE_TYPE: { // Parsing message type
@@ -640,6 +641,7 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
             if(l == -1) {
                 return -1;
             }
+            LOG_BUFFER(log, buf+cnt, l);
             cnt += l;
         }
 
@@ -652,14 +654,13 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
             if(l == -1) {
                 return -1;
             }
+            LOG_BUFFER(log, buf+cnt, l);
             cnt += l;
 
         }
 
     }
 
-    LOG_BUFFER(log, buf, len);
-
     return 1;
 }
 
-- 
2.43.0


From bb9911bb0743ffbda10a2096f43a555031d7aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 04/65] fix: a malformed line no longer hides or alters the
 following messages

---
 src/message.c | 47 ++++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/message.c b/src/message.c
index 7b8d226..5f1f87c 100644
--- a/src/message.c
+++ b/src/message.c
@@ -299,6 +299,18 @@ static __INLINE int read_character(message_stream* stream) {
 
 }
 
+// Drop everything that was collected for a malformed line and skip the rest of it
+static void reject_line(message_stream* stream, char last, string_list* arguments, trax_properties* properties) {
+
+    stream->input.message_type = -1;
+    stream->input.state = last == '\n' ? -prefix_length : PARSE_STATE_PASS;
+    buffer_reset(stream->input.key_buffer);
+    buffer_reset(stream->input.value_buffer);
+    list_reset(arguments);
+    trax_properties_clear(properties);
+
+}
+
 int read_message(message_stream* stream, trax_logging* log, string_list* arguments, trax_properties* properties) {
 	
 	VALIDATE_MESSAGE_STREAM(stream);
@@ -351,8 +363,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     free(key_tmp);
 
                     if (stream->input.message_type == -1) {
-                		stream->input.state = PARSE_STATE_PASS;
-                		stream->input.message_type = -1;
+                		stream->input.state = -prefix_length; // The line is already over
                     } else {
                         stream->input.complete = TRUE;
                     }
@@ -374,11 +385,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 } else if (chr == '\n') {
                 	stream->input.complete = TRUE;
                 } else {
-                	stream->input.message_type = -1;
-                	stream->input.state = PARSE_STATE_PASS;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
-                    buffer_push(stream->input.key_buffer, chr);             	
+                    reject_line(stream, chr, arguments, properties);
                 }
 
                 break;
@@ -478,11 +485,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
-
+                    reject_line(stream, chr, arguments, properties);
                 }
                 
                 break;
@@ -497,10 +500,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_UNQUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
+                    reject_line(stream, chr, arguments, properties);
                 }
                 
                 break;
@@ -511,6 +511,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
                 if (chr == '\\') {
                     stream->input.state = PARSE_STATE_QUOTED_ESCAPE_KEY;
+                } else if (chr == '\n') { // unterminated quotes, a message can not span over multiple lines
+                    reject_line(stream, chr, arguments, properties);
                 } else if (chr == '"') { // append arg and move on
                     char *key_tmp;
                     key_tmp = buffer_extract(stream->input.key_buffer);            
@@ -535,6 +537,8 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
 
                 if (chr == '\\') {
                     stream->input.state = PARSE_STATE_QUOTED_ESCAPE_VALUE;
+                } else if (chr == '\n') { // unterminated quotes, a message can not span over multiple lines
+                    reject_line(stream, chr, arguments, properties);
                 } else if (chr == '"') {
                     char *key_tmp, *value_tmp;
                     key_tmp = buffer_extract(stream->input.key_buffer);
@@ -561,11 +565,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                 	buffer_push(stream->input.key_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_KEY;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
-
+                    reject_line(stream, chr, arguments, properties);
                 }
                 
                 break;
@@ -580,10 +580,7 @@ int read_message(message_stream* stream, trax_logging* log, string_list* argumen
                     buffer_push(stream->input.value_buffer, chr);
                     stream->input.state = PARSE_STATE_QUOTED_VALUE;
                 } else {
-                    stream->input.state = PARSE_STATE_PASS;
-                    stream->input.message_type = -1;
-                    buffer_reset(stream->input.key_buffer);
-                    buffer_reset(stream->input.value_buffer);
+                    reject_line(stream, chr, arguments, properties);
                 }
                 
                 break;
-- 
2.43.0


From 4ba8d97dbae7cd49e3820f2e85eecd5646e2d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 05/65] fix: a signal arriving during a transfer no longer
 breaks the message stream

---
 src/message.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/message.c b/src/message.c
index 5f1f87c..2b5aab9 100644
--- a/src/message.c
+++ b/src/message.c
@@ -24,6 +24,7 @@
 #endif
 
 #include <ctype.h>
+#include <errno.h>
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
 #include <winsock2.h>
@@ -268,15 +269,19 @@ static __INLINE int read_character(message_stream* stream) {
 
     if (stream->buffer_position >= stream->buffer_length) {
 
-        if (stream->flags & TRAX_STREAM_SOCKET) {
+        do { // Being interrupted by a signal is not an error
 
-		    stream->buffer_length = recv(stream->socket.socket, stream->buffer, TRAX_BUFFER_SIZE, 0);
+            if (stream->flags & TRAX_STREAM_SOCKET) {
 
-        } else {
+                stream->buffer_length = recv(stream->socket.socket, stream->buffer, TRAX_BUFFER_SIZE, 0);
 
-        	stream->buffer_length = read(stream->files.input, stream->buffer, TRAX_BUFFER_SIZE);
-           
-        }
+            } else {
+
+                stream->buffer_length = read(stream->files.input, stream->buffer, TRAX_BUFFER_SIZE);
+
+            }
+
+        } while (stream->buffer_length < 0 && errno == EINTR);
 
         if (stream->buffer_length < 0) {
             return -1; // An error has occured  
@@ -636,6 +641,7 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
             int l = send(stream->socket.socket, buf+cnt, len-cnt, 0);
             #endif
             if(l == -1) {
+                if (errno == EINTR) continue; // Interrupted by a signal
                 return -1;
             }
             LOG_BUFFER(log, buf+cnt, l);
@@ -649,6 +655,7 @@ int write_buffer(message_stream* stream, const char* buf, int len, trax_logging*
         while(cnt < len) {
             int l = write(stream->files.output, buf+cnt, len-cnt);
             if(l == -1) {
+                if (errno == EINTR) continue; // Interrupted by a signal
                 return -1;
             }
             LOG_BUFFER(log, buf+cnt, l);
-- 
2.43.0


From e098b2c15fcd71f2ef74f297d2ae22799f649e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 06/65] fix: error messages are formatted with their arguments

---
 src/trax.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 9e8286f..a1b0a9d 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -537,23 +537,20 @@ void clear_error(trax_handle* handle) {
 }
 
 void set_error(trax_handle* handle, const char *format, ...) {
-	va_list args;
+    char message[256];
+    va_list args;
 
-    string_buffer* buffer = buffer_create(100);
+    va_start(args, format);
 
-	va_start(args, format);
-	
-    buffer_append(buffer, format, args);
+    vsnprintf(message, sizeof(message), format, args);
 
-	va_end(args);
+    va_end(args);
 
     if (handle->error) {
         free(handle->error);
     }
 
-    handle->error = buffer_extract(buffer);
-
-    buffer_destroy(&buffer);
+    handle->error = strdup(message);
 
 }
 
-- 
2.43.0


From 6c5abb4049d44898b744af71b892fec05659f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 07/65] fix: honour the overwrite flag of properties and
 defaults of empty values

---
 src/trax.c     | 8 ++++----
 src/traxpp.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index a1b0a9d..0f4b73e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -520,8 +520,8 @@ void channels_encode(int channels, char *key) {
 void copy_properties(const trax_properties* source, trax_properties* dest, int flags) {
 
     trax_enumerator f = (flags & COPY_ALL) ?
-     ((flags && COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
-     ((flags && COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
+     ((flags & COPY_OVERWRITE) ? copy_property_overwrite : copy_property_safe) :
+     ((flags & COPY_OVERWRITE) ? copy_property_external_overwrite : copy_property_external_safe);
     
     trax_properties_enumerate(source, f, dest);
 
@@ -1995,7 +1995,7 @@ int trax_properties_has(const trax_properties* properties, const char* key) {
 int trax_properties_get_int(const trax_properties* properties, const char* key, int def) {
 
     char* end;
-    long ret;
+    long ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
@@ -2014,7 +2014,7 @@ int trax_properties_get_int(const trax_properties* properties, const char* key,
 float trax_properties_get_float(const trax_properties* properties, const char* key, float def) {
 
     char* end;
-    float ret;
+    float ret = def;
     char* value = trax_properties_get(properties, key);
 
     if (value == NULL) return def;
diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 67c2b27..c09e26f 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -317,7 +317,7 @@ int Client::wait(Region& region, Properties& properties) {
 		if (trax_object_list_count(tobjects) == 1) {
 			tregion = trax_region_clone(trax_object_list_get(tobjects, 0));
 			region.wrap(tregion);
-			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
+			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 1);
 		}
 		trax_object_list_release(&tobjects);
 	}
@@ -455,7 +455,7 @@ int ServerMOT::wait(ImageList& image, Region& region, Properties& properties) {
 		if (trax_object_list_count(tobjects) == 1) {
 			tregion = trax_region_clone(trax_object_list_get(tobjects, 0));
 			region.wrap(tregion);
-			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 0);
+			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 1);
 		}
 	}
 
-- 
2.43.0


From f3517365454822f3791a5de5635919cb1ed28038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 08/65] fix: URL images are received with their complete URL

---
 src/trax.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index 0f4b73e..82be9b0 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -117,7 +117,12 @@ char* parse_uri(char* buffer) {
     for (; i < MAX_URI_SCHEME; i++) {
         if ((buffer[i] >= 'a' && buffer[i] <= 'z') || buffer[i] == '+' || buffer[i] == '.' || buffer[i] == '-') continue;
 
+        // Upper case letters and digits are also allowed, but a scheme does not start with a digit
+        if ((buffer[i] >= 'A' && buffer[i] <= 'Z') || (i > 0 && buffer[i] >= '0' && buffer[i] <= '9')) continue;
+
         if (buffer[i] == ':') {
+            // A single upper case letter is a drive in the legacy path format
+            if (i == 1 && buffer[0] >= 'A' && buffer[0] <= 'Z') return NULL;
             buffer[i] = 0; // Insert a stop char so that we can compare the prefix
             return buffer + i + 1;
         }
@@ -364,7 +369,7 @@ trax_image* image_decode(char* buffer) {
         result->data = (char*) malloc(sizeof(char) * (outlen));
         base64decode((unsigned char*)result->data, resource);
     } else {
-        *(resource--) = ':'; // Restore the semicolon and use the buffer as URL
+        *(resource - 1) = ':'; // Restore the colon and use the buffer as URL
         result = trax_image_create_url(buffer);
     }
     return result;
-- 
2.43.0


From 382b4ad90733a5a05058e921469555c126ff3d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 09/65] fix: invalid image data is refused and image rows and
 buffers are complete

---
 src/trax.c | 65 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 82be9b0..f0d01ee 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -302,6 +302,26 @@ char* image_encode(trax_image* image) {
     return result;
 }
 
+// Decodes a Base64 encoded text, returns NULL if the text is not a valid encoding of at least one byte
+static char* decode_base64(const char* text, int* length) {
+
+    char* data;
+    size_t size = strlen(text);
+    size_t digits = strspn(text, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/");
+    size_t padding = size - digits;
+
+    if (digits < 2 || digits % 4 == 1 || strspn(text + digits, "=") != padding) return NULL;
+
+    if (padding > 0 && (padding > 2 || size % 4 != 0)) return NULL;
+
+    data = (char*) malloc(base64decodelen(text));
+
+    *length = base64decode((unsigned char*) data, text);
+
+    return data;
+
+}
+
 trax_image* image_decode(char* buffer) {
 
     trax_image* result = NULL;
@@ -317,8 +337,9 @@ trax_image* image_decode(char* buffer) {
     if (strcmp(buffer, "file") == 0) {
         result = trax_image_create_path(buffer + (compare_prefix(resource, "//") ? 7 : 5));
     } else if (strcmp(buffer, "image") == 0) {
-        int outlen, width, height, depth, format, channels, allocated, verify;
-        char* token;
+        int outlen, depth, format, channels;
+        long width, height;
+        char *token, *data;
 
         width = strtol(resource, &resource, 10);
         if (resource[0] != ';') return result;
@@ -329,45 +350,51 @@ trax_image* image_decode(char* buffer) {
 
         if (!resource) return NULL;
         format = decode_memory_format(token);
-
-        outlen = base64decodelen(resource) - 1;
+        if (format == TRAX_IMAGE_MEMORY_ILLEGAL) return NULL;
 
         depth = format == TRAX_IMAGE_MEMORY_RGB ? 1 :
                 (format == TRAX_IMAGE_MEMORY_GRAY8 ? 1 :
                  (format == TRAX_IMAGE_MEMORY_GRAY16 ? 2 : 0));
         channels = format == TRAX_IMAGE_MEMORY_RGB ? 3 : 1;
-        allocated =  (width * height * depth * channels);
 
-        if (width < 1 || height < 1 || outlen != allocated) return result;
+        if (width < 1 || height < 1) return NULL;
+
+        data = decode_base64(resource, &outlen);
+
+        if (!data) return NULL;
+
+        if (width > outlen || height > outlen || (double) width * height * depth * channels != outlen) {
+            free(data);
+            return NULL;
+        }
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_MEMORY;
-        result->width = width;
-        result->height = height;
+        result->width = (int) width;
+        result->height = (int) height;
         result->format = format;
-        result->data = (char*) malloc(sizeof(char) * allocated);
-        verify = base64decode((unsigned char*)result->data, resource);
-
-        assert(verify == allocated);
+        result->data = data;
 
     } else if (strcmp(buffer, "data") == 0) {
         int format, outlen;
-        char* token;
+        char *token, *data;
 
         token = resource;
         resource = strntok(token, ';', 32);
         if (!resource) return NULL;
         format = decode_buffer_format(token);
-        outlen = base64decodelen(resource);
+        if (format == TRAX_IMAGE_BUFFER_ILLEGAL) return NULL;
+
+        data = decode_base64(resource, &outlen);
+
+        if (!data) return NULL;
 
         result = (trax_image*) malloc(sizeof(trax_image));
         result->type = TRAX_IMAGE_BUFFER;
         result->width = outlen;
         result->height = 1;
         result->format = format;
-
-        result->data = (char*) malloc(sizeof(char) * (outlen));
-        base64decode((unsigned char*)result->data, resource);
+        result->data = data;
     } else {
         *(resource - 1) = ':'; // Restore the colon and use the buffer as URL
         result = trax_image_create_url(buffer);
@@ -1665,7 +1692,7 @@ char* trax_image_write_memory_row(trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[(size_t) depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_memory_row(const trax_image* image, int row) {
@@ -1678,7 +1705,7 @@ const char* trax_image_get_memory_row(const trax_image* image, int row) {
     depth = MEMORY_DEPTH(image);
     channels = MEMORY_CHANNELS(image);
 
-    return &(image->data[depth * channels * row]);
+    return &(image->data[(size_t) depth * channels * image->width * row]);
 }
 
 const char* trax_image_get_buffer(const trax_image* image, int* length, int* format) {
-- 
2.43.0


From d1a3578aea036554c1391ca7283cd15b5ef7159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 10/65] fix: missing and unknown capabilities in the hello
 message

---
 src/trax.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index f0d01ee..3f2f241 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -418,9 +418,7 @@ int image_formats_decode(char *str) {
             formats |= TRAX_IMAGE_MEMORY;
         else if (strcmp(pch, "buffer") == 0)
             formats |= TRAX_IMAGE_BUFFER;
-        else if (strlen(pch) == 0)
-            continue; // Skip empty
-        else return -1;
+        // Anything else is not known and therefore not supported
 
         pch = strtok (NULL, ";");
     }
@@ -463,9 +461,7 @@ int region_formats_decode(char *str) {
             formats |= TRAX_REGION_POLYGON;
         else if (strcmp(pch, "mask") == 0)
             formats |= TRAX_REGION_MASK;
-        else if (strlen(pch) == 0)
-            continue; // Skip empty
-        else return -1;
+        // Anything else is not known and therefore not supported
 
         pch = strtok (NULL, ";");
     }
@@ -511,6 +507,8 @@ int channels_decode(char *str) {
     int channels = 0;
 
     char *pch;
+    if (!str) return 0;
+
     pch = strtok (str, " ;");
     while (pch != NULL) {
 
@@ -521,9 +519,7 @@ int channels_decode(char *str) {
         else if (strcmp(pch, "ir") == 0)
             channels |= TRAX_CHANNEL_IR;
 
-        else if (strlen(pch) == 0)
-            continue; // Skip empty
-        else return -1;
+        // Anything else is not known and therefore not supported
 
         pch = strtok (NULL, ";");
     }
@@ -619,11 +615,11 @@ trax_handle* client_setup(message_stream* stream, const trax_logging log) {
     client->version = trax_properties_get_int(tmp_properties, "trax.version", 1);
 
     tmp = trax_properties_get(tmp_properties, "trax.region");
-    region_formats = region_formats_decode(tmp);
+    region_formats = (tmp) ? region_formats_decode(tmp) : TRAX_REGION_RECTANGLE;
     free(tmp);
 
     tmp = trax_properties_get(tmp_properties, "trax.image");
-    image_formats = image_formats_decode(tmp);
+    image_formats = (tmp) ? image_formats_decode(tmp) : TRAX_IMAGE_PATH;
     free(tmp);
 
     // Multiple channels are only supported in TraX protocol version 2
@@ -666,6 +662,7 @@ failure:
 
     list_destroy(&arguments);
     trax_properties_release(&tmp_properties);
+    destroy_message_stream(&stream);
     free(client);
     return NULL;
 
-- 
2.43.0


From 753708ad07a802fcaf4a9988dc7a0cae412e6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 11/65] fix: client reports only complete states of all
 objects, everything else is an error

---
 src/trax.c | 63 +++++++++++++++++++++++-------------------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 3f2f241..fbd2e10 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -803,11 +803,18 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
     VALIDATE_CLIENT_HANDLE(client);
 
+    clear_error(client);
+
     if (!HANDLE_ALIVE(client)) {
         set_error(client, "Tracker not alive");
         return TRAX_ERROR;
     }
 
+    if (client->objects < 1) {
+        set_error(client, "No object to wait for");
+        return TRAX_ERROR;
+    }
+
     (*objects) = trax_object_list_create(client->objects);
 
     for (int i = 0; i < client->objects; i++) {
@@ -816,59 +823,43 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
         arguments = list_create(8);
         result = read_message((message_stream*)client->stream, &LOGGER(client), arguments, tmp_properties);
 
-        if (result == TRAX_STATE) {
+        if (result == TRAX_STATE && list_size(arguments) == 1) {
 
             region_container *_region = NULL;
 
-            if (list_size(arguments) != 1) {
-                list_destroy(&arguments);
-                trax_properties_release(&tmp_properties);
-                trax_object_list_release(objects);
-                result = TRAX_ERROR;
-                break;
-            }
-            
-            if (!region_parse(arguments->buffer[0], &_region)) {
-                list_destroy(&arguments);
-                trax_properties_release(&tmp_properties);
-                trax_object_list_release(objects);
-                result = TRAX_ERROR;
-                break;
-            }
+            if (region_parse(arguments->buffer[0], &_region)) {
 
-            trax_object_list_set((*objects), i, _region);
-            region_release(&_region);
-            copy_properties(tmp_properties, trax_object_list_properties((*objects), i), COPY_ALL | COPY_OVERWRITE);
+                trax_object_list_set((*objects), i, _region);
+                region_release(&_region);
+                copy_properties(tmp_properties, trax_object_list_properties((*objects), i), COPY_ALL | COPY_OVERWRITE);
 
-        } else if (result == TRAX_QUIT) {
-
-            if (list_size(arguments) != 0) {
-                list_destroy(&arguments);
-                trax_properties_release(&tmp_properties);
-                trax_object_list_release(objects);
+            } else {
+                set_error(client, "Protocol error, illegal region");
                 result = TRAX_ERROR;
-                break;
             }
-    
+
+        } else if (result == TRAX_QUIT && list_size(arguments) == 0) {
+
             if (properties)
                 copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
 
             client->flags |= TRAX_FLAG_TERMINATED;
 
-            list_destroy(&arguments);
-            trax_properties_release(&tmp_properties);
-            trax_object_list_release(objects);
-            break;
-        } else if (result == TRAX_ERROR) {
-            list_destroy(&arguments);
-            trax_properties_release(&tmp_properties);
-            trax_object_list_release(objects);
-            break;
+        } else {
+
+            set_error(client, "Protocol error, unexpected message or argument number");
+            result = TRAX_ERROR;
+
         }
 
         list_destroy(&arguments);
         trax_properties_release(&tmp_properties);
 
+        if (result != TRAX_STATE) {
+            trax_object_list_release(objects);
+            break;
+        }
+
     }
 
     return result;
-- 
2.43.0


From b1c601e385fbcccff5131b96703f68167b9eaf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 12/65] fix: a refused client request sends nothing and does
 not change the session

---
 src/trax.c | 211 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 113 insertions(+), 98 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index fbd2e10..7c71a22 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -866,12 +866,73 @@ int trax_client_wait(trax_handle* client, trax_object_list** objects, trax_prope
 
 }
 
+// Encodes an image for every channel that the tracker requires, returns NULL if one is missing.
+static string_list* client_encode_images(trax_handle* client, const trax_image_list* images) {
+
+    int i;
+    string_list* arguments = list_create(TRAX_CHANNELS);
+
+    for (i = 0; i < TRAX_CHANNELS; i++) {
+        if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
+
+            char* data = (images && images->images[i]) ? image_encode(images->images[i]) : NULL;
+
+            if (!data) {
+                set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
+                list_destroy(&arguments);
+                return NULL;
+            }
+
+            list_append_direct(arguments, data);
+        }
+    }
+
+    return arguments;
+
+}
+
+// Encodes regions of all objects in formats that the tracker supports, returns NULL if that is not possible.
+static string_list* client_encode_objects(trax_handle* client, trax_object_list* objects) {
+
+    int i;
+    int n = (objects) ? trax_object_list_count(objects) : 0;
+    string_list* regions = list_create(n + 1);
+
+    for (i = 0; i < n; i++) {
+        char* data = NULL;
+        trax_region* region = trax_object_list_get(objects, i);
+        int type = trax_region_get_type(region);
+
+        if (type != TRAX_REGION_SPECIAL && type != TRAX_REGION_EMPTY) {
+
+            if (TRAX_SUPPORTS(client->metadata->format_region, type)) {
+                data = region_string((region_container *)region);
+            } else {
+                trax_region* converted = region_autoconvert(region, client->metadata->format_region);
+                if (converted) {
+                    data = region_string((region_container *)converted);
+                    trax_region_release(&converted);
+                }
+            }
+        }
+
+        if (!data) {
+            set_error(client, "Object region not available in a supported format (object: %d)", i);
+            list_destroy(&regions);
+            return NULL;
+        }
+
+        list_append_direct(regions, data);
+    }
+
+    return regions;
+
+}
+
 int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
-    char* data = NULL;
-    trax_region* region;
-    string_list* arguments;
-    int i, n;
+    string_list *arguments, *regions;
+    int n;
 
     VALIDATE_CLIENT_HANDLE(client);
 
@@ -882,9 +943,7 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         return TRAX_ERROR;
     }
 
-    assert(images && objects);
-
-    n = trax_object_list_count(objects);
+    n = (objects) ? trax_object_list_count(objects) : 0;
 
     if (n < 1) {
         set_error(client, "At least one object required");
@@ -896,7 +955,20 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
         return TRAX_ERROR;
     }
 
+    // Nothing is sent until all the data is known to be available
+    if (!(arguments = client_encode_images(client, images)))
+        return TRAX_ERROR;
+
+    if (!(regions = client_encode_objects(client, objects))) {
+        list_destroy(&arguments);
+        return TRAX_ERROR;
+    }
+
     if (IS_VERSION_4(client)) {
+
+        list_destroy(&arguments);
+        list_destroy(&regions);
+
         if (client->objects > 0) {
             // Reset object count with an empty initialize message
             write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL);
@@ -907,63 +979,26 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
 
     // Legacy single target mode from now on.
 
-    region = trax_object_list_get(objects, 0);
-
-    assert(REGION_TYPE(region) != SPECIAL);
-
     // TODO: verify server version?
 
-    arguments = list_create(1);
-
-    for (i = 0; i < TRAX_CHANNELS; i++) {
-        if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
-
-            if (!images->images[i]) {
-                set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
-                goto failure;
-            }
-            char* buffer = image_encode(images->images[i]);
-            list_append_direct(arguments, buffer);
-
-        }
-    }
-
-    if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
-
-        trax_region* converted = region_autoconvert(region, client->metadata->format_region);
-
-        assert(converted);
-
-        data = region_string((region_container *)converted);
-
-        trax_region_release(&converted);
-
-    } else data = region_string((region_container *)region);
-
-    if (data) {
-        list_append(arguments, data);
-        free(data);
-    }
+    list_append(arguments, regions->buffer[0]);
 
     write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, properties);
 
     list_destroy(&arguments);
+    list_destroy(&regions);
 
     client->objects = 1;
 
     return TRAX_OK;
 
-failure:
-
-    list_destroy(&arguments);
-
-    return TRAX_ERROR;
-
 }
 
 int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
-    int i;
+    int i, n;
+    string_list *images_arguments, *regions;
+
     VALIDATE_CLIENT_HANDLE(client);
 
     clear_error(client);
@@ -973,76 +1008,56 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
         return TRAX_ERROR;
     }
 
-    if (IS_VERSION_4(client)) {
+    n = (objects) ? trax_object_list_count(objects) : 0;
 
-        int n = (objects) ? trax_object_list_count(objects) : 0;
+    if (IS_VERSION_4(client)) {
 
         if (client->objects + n > 1 && !IS_MULTI_OBJECT(client)) {
             set_error(client, "Invalid mode");
             return TRAX_ERROR;
         }
 
-        for (i = 0; i < n; i++) {
-            char* data = NULL;
-            string_list* arguments;
-            trax_region* region = trax_object_list_get(objects, i);
-
-            arguments = list_create(1);
-
-            if (!TRAX_SUPPORTS(client->metadata->format_region, REGION_TYPE(region))) {
+    } else {
 
-                    trax_region* converted = region_autoconvert(region, client->metadata->format_region);
-                    assert(converted);
-                    data = region_string((region_container *)converted);
-                    trax_region_release(&converted);
+        if (n > 0) {
+            set_error(client, "Unable to add new objects");
+            return TRAX_ERROR;
+        }
 
-            } else data = region_string((region_container *)region);
+    }
 
-            if (data) {
-                list_append(arguments, data);
-                free(data);
-            }
+    if (client->objects + n < 1) {
+        set_error(client, "No object to track, initialize required");
+        return TRAX_ERROR;
+    }
 
-            write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i));
+    // Nothing is sent until all the data is known to be available
+    if (!(images_arguments = client_encode_images(client, images)))
+        return TRAX_ERROR;
 
-            list_destroy(&arguments);
+    if (!(regions = client_encode_objects(client, objects))) {
+        list_destroy(&images_arguments);
+        return TRAX_ERROR;
+    }
 
-        }
-        
-        client->objects += n;
-        
-    } else {
+    for (i = 0; i < n; i++) {
+        string_list* arguments = list_create(1);
 
-        int n = (objects) ? trax_object_list_count(objects) : 0;
+        list_append(arguments, regions->buffer[i]);
 
-        if (n > 0) {
-            set_error(client, "Unable to add new objects");
-            return TRAX_ERROR;
-        }
+        write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i));
 
+        list_destroy(&arguments);
     }
 
-    {
-        string_list* arguments;
-        arguments = list_create(1);
+    client->objects += n;
 
-        for (i = 0; i < TRAX_CHANNELS; i++) {
-            if (TRAX_SUPPORTS(client->metadata->channels, TRAX_CHANNEL_ID(i))) {
-                if (!images->images[i]) {
-                    set_error(client, "Required image channel not provided (ID: %d)", TRAX_CHANNEL_ID(i));
-                    list_destroy(&arguments);
-                    return TRAX_ERROR;
-                }
-                char* buffer = image_encode(images->images[i]);
-                list_append_direct(arguments, buffer);
-            } 
-        }
+    write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, images_arguments, properties);
 
-        write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, arguments, properties);
-        list_destroy(&arguments);
+    list_destroy(&images_arguments);
+    list_destroy(&regions);
 
-        return TRAX_OK;
-    }
+    return TRAX_OK;
 
 }
 
-- 
2.43.0


From 23dd97ed3bfb744d81aaf28519bb228a30e0fb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 13/65] fix: server reports only legal requests, complete and
 once

Frames before an initialization, unexpected messages and requests with an
image or a region missing or undecodable are errors; objects that were
announced by an earlier request are not reported again; regions are
encoded before anything is sent.
---
 src/trax.c | 312 ++++++++++++++++++++++++-----------------------------
 1 file changed, 138 insertions(+), 174 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 7c71a22..3892c9f 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1102,10 +1102,40 @@ trax_handle* trax_server_setup_file_v(trax_metadata *metadata, int input, int ou
     return server_setup(metadata, stream, log, version);
 }
 
+// Decodes an image for every channel of the tracker, returns NULL if any of them is not acceptable.
+static trax_image_list* server_decode_images(trax_handle* server, const string_list* arguments) {
+
+    int i, j = 0;
+    trax_image_list* images = trax_image_list_create();
+
+    for (i = 0; i < TRAX_CHANNELS; i++) {
+
+        if (TRAX_SUPPORTS(server->metadata->channels, TRAX_CHANNEL_ID(i))) {
+
+            images->images[i] = image_decode(arguments->buffer[j]);
+
+            if (!images->images[i] || !TRAX_SUPPORTS(server->metadata->format_image, images->images[i]->type)) {
+                set_error(server, "Protocol error, illegal or unsupported image");
+                trax_image_list_clear(images);
+                trax_image_list_release(&images);
+                return NULL;
+            }
+
+            j++;
+
+        }
+
+    }
+
+    return images;
+
+}
+
 int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_region** region, trax_properties* properties) {
 
+    int code;
     int result = TRAX_ERROR;
-    int i, j = 0;
+    int required = 0;
     string_list* arguments;
     trax_properties* tmp_properties;
 
@@ -1113,6 +1143,9 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
 
     clear_error(server);
 
+    *images = NULL;
+    *region = NULL;
+
     if (!HANDLE_ALIVE(server)) {
         set_error(server, "Server not alive");
         return TRAX_ERROR;
@@ -1123,100 +1156,51 @@ int trax_server_wait_sot(trax_handle* server, trax_image_list** images, trax_reg
         return TRAX_ERROR;
     }
 
-    int argument_count = trax_image_list_count(server->metadata->channels);
-
     tmp_properties = trax_properties_create();
     arguments = list_create(8);
 
-    result = read_message((message_stream*)server->stream, &LOGGER(server), arguments, tmp_properties);
-
-    if (result == TRAX_FRAME) {
+    code = read_message((message_stream*)server->stream, &LOGGER(server), arguments, tmp_properties);
 
-        if (list_size(arguments) != argument_count) {
-            set_error(server, "Protocol error, illegal argument number %d != %d", list_size(arguments), argument_count);
-            goto failure;
-        }   
-            
-        *images = trax_image_list_create();
-
-        for (i = 0; i < TRAX_CHANNELS; i++) {
-
-            if (TRAX_SUPPORTS(server->metadata->channels, TRAX_CHANNEL_ID(i))) {
-
-                (*images)->images[i] = image_decode(arguments->buffer[j]);
-                if (!(*images)->images[i] || !TRAX_SUPPORTS(server->metadata->format_image, (*images)->images[i]->type))
-                    goto failure;
-                j++;
-
-            }
-
-        }
-
-        if (properties)
-            copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
+    if (!(code == TRAX_QUIT || code == TRAX_INITIALIZE || (code == TRAX_FRAME && server->objects > 0))) {
+        set_error(server, "Protocol error, unexpected message");
         goto end;
+    }
 
-    } else if (result == TRAX_QUIT) {
-
-        if (list_size(arguments) != 0){
-            set_error(server, "Protocol error, illegal argument number %d != %d", list_size(arguments), 0);
-            goto failure;
-        }   
-
-        if (properties)
-            copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
-
-        server->flags |= TRAX_FLAG_TERMINATED;
+    if (code != TRAX_QUIT) {
+        required = trax_image_list_count(server->metadata->channels);
+        if (code == TRAX_INITIALIZE) required++; // There's also the region info
+    }
 
+    if (list_size(arguments) != required) {
+        set_error(server, "Protocol error, illegal argument number %d != %d", list_size(arguments), required);
         goto end;
+    }
 
-    } else if (result == TRAX_INITIALIZE) {
-
-        if (list_size(arguments) != (argument_count + 1)) { // There's also the region info
-            set_error(server, "Protocol error, illegal argument number %d != %d", list_size(arguments), argument_count + 1);
-            goto failure;
-        }    
-
-        *images = trax_image_list_create();
-
-        for (i = 0; i < TRAX_CHANNELS; i++) {
+    if (code != TRAX_QUIT) {
 
-            if (TRAX_SUPPORTS(server->metadata->channels, TRAX_CHANNEL_ID(i))) {
+        if (!(*images = server_decode_images(server, arguments)))
+            goto end;
 
-                (*images)->images[i] = image_decode(arguments->buffer[j]);
-                if (!(*images)->images[i] || !TRAX_SUPPORTS(server->metadata->format_image, (*images)->images[i]->type))
-                    goto failure;
-                j++;
+        if (code == TRAX_INITIALIZE) {
 
+            if (!region_parse(arguments->buffer[required - 1], (region_container**)region)) {
+                set_error(server, "Protocol error, illegal region");
+                *region = NULL;
+                trax_image_list_clear(*images);
+                trax_image_list_release(images);
+                goto end;
             }
 
-        }
+            server->objects = 1;
 
-        if (!region_parse(arguments->buffer[j], (region_container**)region)) {
-            goto failure;
         }
 
-        if (properties)
-            copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
+    } else server->flags |= TRAX_FLAG_TERMINATED;
 
-        server->objects = 1;
+    if (properties)
+        copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
 
-        goto end;
-    }
-
-failure:
-
-    result = TRAX_ERROR;
-
-    if (*images) {
-        for (i = 0; i < TRAX_CHANNELS; i++) {
-            if ((*images)->images[i]) trax_image_release(&(*images)->images[i]);
-        }
-        trax_image_list_release(images);
-    }
-
-    if (*region)
-        trax_region_release(region);
+    result = code;
 
 end:
 
@@ -1229,18 +1213,17 @@ end:
 int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_object_list** objects, trax_properties* properties) {
 
     int result = TRAX_ERROR;
-    int i, j = 0;
+    int initialize = 0; // Did we receive any initialize message
+    int argument_count;
     string_list* arguments;
     trax_properties* tmp_properties;
-    int object_capacity = 1;
-    int object_count = 0;
-    trax_region** object_regions = (trax_region**) malloc(sizeof(trax_region*) * object_capacity);
-    trax_properties** object_properties = (trax_properties**) malloc(sizeof(trax_properties*) * object_capacity);
+    trax_object_list* pending; // Objects received until now
 
     VALIDATE_SERVER_HANDLE(server);
 
     clear_error(server);
 
+    *images = NULL;
     *objects = NULL;
 
     if (!HANDLE_ALIVE(server)) {
@@ -1248,139 +1231,105 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
         return TRAX_ERROR;
     }
 
-    int argument_count = trax_image_list_count(server->metadata->channels);
+    argument_count = trax_image_list_count(server->metadata->channels);
+
+    tmp_properties = trax_properties_create();
+    arguments = list_create(8);
+    pending = trax_object_list_create(0);
 
     while (1) {
-        tmp_properties = trax_properties_create();
-        arguments = list_create(8);
 
-        int code = read_message((message_stream*)server->stream, &LOGGER(server), arguments, tmp_properties);
+        int code;
 
-        if (code == TRAX_ERROR) {
-            goto failure;
-        }
+        trax_properties_clear(tmp_properties);
+
+        code = read_message((message_stream*)server->stream, &LOGGER(server), arguments, tmp_properties);
 
         if (code == TRAX_QUIT) {
 
             if (list_size(arguments) != 0){
                 set_error(server, "Protocol error, illegal argument number %d != %d", list_size(arguments), 0);
-                goto failure;
-            }   
+                break;
+            }
 
             if (properties)
                 copy_properties(tmp_properties, properties, COPY_EXTERNAL | COPY_OVERWRITE);
 
-            result = TRAX_QUIT;
             server->flags |= TRAX_FLAG_TERMINATED;
-            goto end;
+            result = TRAX_QUIT;
+            break;
         }
 
         if (code == TRAX_FRAME) {
 
-            if (result == TRAX_INITIALIZE && object_count == 0) {
+            if ((initialize && pending->size == 0) || server->objects + pending->size == 0) {
                 set_error(server, "No object was given to track");
-                goto failure;
+                break;
             }
 
-            if (result != TRAX_INITIALIZE || server->objects > 0) result = TRAX_FRAME;
-
             if (list_size(arguments) != argument_count) {
                 set_error(server, "Protocol error, illegal argument number %d != %d", list_size(arguments), argument_count);
-                goto failure;
-            }   
-                
-            *images = trax_image_list_create();
-
-            for (i = 0; i < TRAX_CHANNELS; i++) {
+                break;
+            }
 
-                if (TRAX_SUPPORTS(server->metadata->channels, TRAX_CHANNEL_ID(i))) {
+            if (!(*images = server_decode_images(server, arguments)))
+                break;
 
-                    (*images)->images[i] = image_decode(arguments->buffer[j]);
-                    if (!(*images)->images[i] || !TRAX_SUPPORTS(server->metadata->format_image, (*images)->images[i]->type))
-                        goto failure;
-                    j++;
+            if (properties)
+                copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
 
-                }
+            result = (initialize && server->objects == 0) ? TRAX_INITIALIZE : TRAX_FRAME;
 
+            if (pending->size > 0) {
+                server->objects += pending->size;
+                *objects = pending;
+                pending = NULL;
             }
-
-            if (properties)
-                copy_properties(tmp_properties, properties, COPY_ALL | COPY_OVERWRITE);
-            goto end;
+            break;
         }
 
         if (code == TRAX_INITIALIZE) {
 
-            if (list_size(arguments) == 0) {
-                result = TRAX_INITIALIZE;
+            region_container* region = NULL;
+            trax_object_list* object;
+
+            initialize = 1;
+
+            if (list_size(arguments) == 0) { // Forget all the objects
                 server->objects = 0;
+                trax_object_list_release(&pending);
+                pending = trax_object_list_create(0);
                 continue;
             }
 
-            if (list_size(arguments) != 1) { // There's also the region info
+            if (list_size(arguments) != 1) {
                 set_error(server, "Protocol error, illegal argument number %d != %d", list_size(arguments), 1);
-                goto failure;
-            }
-
-            object_count++;
-
-            if (object_count > object_capacity) {
-                object_capacity += 10;
-                object_regions = (trax_region**) realloc(object_regions, sizeof(trax_region*) * object_capacity);
-                object_properties = (trax_properties**) realloc(object_properties, sizeof(trax_properties*) * object_capacity);
+                break;
             }
 
-            if (!region_parse(arguments->buffer[0], (region_container**)(&object_regions[object_count-1]))) {
-                object_count--;
-                goto failure;
+            if (!region_parse(arguments->buffer[0], &region)) {
+                set_error(server, "Protocol error, illegal region");
+                break;
             }
 
-            object_properties[object_count-1] = trax_properties_create();
-            copy_properties(tmp_properties, object_properties[object_count-1], COPY_ALL | COPY_OVERWRITE);
+            object = trax_object_list_create(1);
+            trax_object_list_set(object, 0, region);
+            region_release(&region);
+            copy_properties(tmp_properties, trax_object_list_properties(object, 0), COPY_ALL | COPY_OVERWRITE);
+            trax_object_list_append(pending, object);
+            trax_object_list_release(&object);
 
-            result = TRAX_INITIALIZE;
+            continue;
         }
 
-        list_destroy(&arguments);
-        trax_properties_release(&tmp_properties);
-
-    }
-
-failure:
-
-    result = TRAX_ERROR;
-
-    if (*images) {
-        for (i = 0; i < TRAX_CHANNELS; i++) {
-            if ((*images)->images[i]) trax_image_release(&(*images)->images[i]);
-        }
-        trax_image_list_release(images);
-    }
+        set_error(server, "Protocol error, unexpected message");
+        break;
 
-    for (i = 0; i < object_count; i++) {
-        trax_region_release(&(object_regions[i]));
-        trax_properties_release(&(object_properties[i]));
     }
-    object_count = 0;
-
-end:
-
-    if (object_count) {
-        *objects = trax_object_list_create(object_count);
-        for (i = 0; i < object_count; i++) {
-            trax_object_list_set(*objects, i, object_regions[i]);
-            copy_properties(object_properties[i], trax_object_list_properties(*objects, i), COPY_ALL | COPY_OVERWRITE);
-            trax_region_release(&(object_regions[i]));
-            trax_properties_release(&(object_properties[i]));
-        }
-        server->objects += object_count;
-    } 
 
-    if (arguments) list_destroy(&arguments);
-    if (tmp_properties) trax_properties_release(&tmp_properties);
-
-    free(object_regions);
-    free(object_properties);
+    trax_object_list_release(&pending);
+    list_destroy(&arguments);
+    trax_properties_release(&tmp_properties);
 
     return result;
 }
@@ -1404,9 +1353,12 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
         return TRAX_ERROR;
     }
 
-    data = region_string(REGION(region));
+    data = (region) ? region_string(REGION(region)) : NULL;
 
-    if (!data) return TRAX_ERROR;
+    if (!data) {
+        set_error(server, "Unable to encode the region");
+        return TRAX_ERROR;
+    }
 
     arguments = list_create(1);
 
@@ -1423,8 +1375,7 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
 int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
 
     int n, i;
-    char* data;
-    string_list* arguments;
+    string_list *arguments, *regions;
 
     VALIDATE_SERVER_HANDLE(server);
 
@@ -1449,15 +1400,28 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
         return TRAX_ERROR;
     }
 
+    regions = list_create(n + 1);
+
+    for (i = 0; i < n; i++) {
+        trax_region* region = trax_object_list_get(objects, i);
+        char* data = (region) ? region_string(REGION(region)) : NULL;
+        if (!data) {
+            set_error(server, "Unable to encode the region of object %d", i);
+            list_destroy(&regions);
+            return TRAX_ERROR;
+        }
+        list_append_direct(regions, data);
+    }
+
     for (i = 0; i < n; i++) {
-        data = region_string(REGION(trax_object_list_get(objects, i)));
-        if (!data) return TRAX_ERROR;
         arguments = list_create(1);
-        list_append_direct(arguments, data);
+        list_append(arguments, regions->buffer[i]);
         write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i));
         list_destroy(&arguments);
     }
 
+    list_destroy(&regions);
+
     return TRAX_OK;
 }
 
-- 
2.43.0


From 720a8fe69f89e3ffdf36b97e2fb9f87c7a02e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:10 +0000
Subject: [PATCH 14/65] fix: malformed region text is refused, numbers keep
 their precision

Region text with a wrong number of values or an impossible mask size is a
decoding failure and not an assertion, empty masks can be decoded and
integers are no longer rounded to single precision. Also fixes a heap
overflow in the parsing of the sequence.
---
 src/region.c | 76 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 29 deletions(-)

diff --git a/src/region.c b/src/region.c
index cae061b..a80e1ae 100644
--- a/src/region.c
+++ b/src/region.c
@@ -1,6 +1,7 @@
 
 #include <stdio.h>
 #include <float.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
@@ -31,6 +32,8 @@
 
 #define PRINT_BOUNDS(B) printf("[left: %.2f, top: %.2f, right: %.2f, bottom: %.2f]\n", B.left, B.top, B.right, B.bottom)
 
+#define MAX_MASK 10000
+
 const region_bounds region_no_bounds = { -FLT_MAX, FLT_MAX, -FLT_MAX, FLT_MAX };
 
 int __flags = 0;
@@ -51,16 +54,33 @@ int region_clear_flags(int mask) {
 
 }
 
-int __is_valid_sequence(float* sequence, int len) {
+int __is_valid_sequence(const double* sequence, int len) {
 	int i;
 
 	for (i = 0; i < len; i++) {
-		if (isnan(sequence[i])) return 0;
+		// Also excludes infinite values and values that do not fit a float
+		if (!(sequence[i] >= -FLT_MAX && sequence[i] <= FLT_MAX)) return 0;
 	}
 
 	return 1;
 }
 
+/* Number that can be stored as an integer (the fraction is dropped). */
+static int __is_integer_range(double value) {
+
+	return value > (double) INT_MIN - 1 && value < (double) INT_MAX + 1;
+
+}
+
+/* The area covered by a mask has to be of a reasonable size and addressable by integers. */
+static int __is_valid_mask(double x, double y, double width, double height) {
+
+	return width >= 1 && height >= 1 && width * height <= (double) MAX_MASK * MAX_MASK &&
+	       __is_integer_range(x) && __is_integer_range(y) &&
+	       __is_integer_range(x + width) && __is_integer_range(y + height);
+
+}
+
 void free_polygon(region_polygon* polygon) {
 
 	free(polygon->x);
@@ -246,13 +266,13 @@ const char* __parse_uri_prefix(const char* buffer, region_type* type) {
 		if ((buffer[i] >= 'a' && buffer[i] <= 'z') || buffer[i] == '+' || buffer[i] == '.' || buffer[i] == '-') continue;
 
 		if (buffer[i] == ':') {
-			if (strncmp(buffer, "rect", i - 1) == 0)
+			if (i == 4 && strncmp(buffer, "rect", i) == 0)
 				*type = RECTANGLE;
-			else if (strncmp(buffer, "poly", i - 1) == 0)
+			else if (i == 4 && strncmp(buffer, "poly", i) == 0)
 				*type = POLYGON;
-			else if (strncmp(buffer, "mask", i - 1) == 0)
+			else if (i == 4 && strncmp(buffer, "mask", i) == 0)
 				*type = MASK;
-			else if (strncmp(buffer, "special", i - 1) == 0)
+			else if (i == 7 && strncmp(buffer, "special", i) == 0)
 				*type = SPECIAL;
 			return &(buffer[i + 1]);
 		}
@@ -285,11 +305,11 @@ static inline const char* _str_find(const char* in, const char delimiter) {
 
 }
 
-int _parse_sequence(const char* buffer, float** data) {
+int _parse_sequence(const char* buffer, double** data) {
 
 	int i;
 
-	float* numbers = (float*) malloc(sizeof(float) * (strlen(buffer)));
+	double* numbers = (double*) malloc(sizeof(double) * (strlen(buffer) + 1));
 
 	const char* pch = buffer;
 	for (i = 0; ; i++) {
@@ -299,10 +319,10 @@ int _parse_sequence(const char* buffer, float** data) {
 			if (tolower(pch[0]) == 'n' && tolower(pch[1]) == 'a' && tolower(pch[2]) == 'n') {
 				numbers[i] = NAN;
 			} else {
-				numbers[i] = (float) atof(pch);
+				numbers[i] = atof(pch);
 			}
 #else
-			numbers[i] = (float) atof(pch);
+			numbers[i] = atof(pch);
 #endif
 		} else
 			break;
@@ -312,7 +332,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 	if (i > 0) {
 		int j;
-		*data = (float*) malloc(sizeof(float) * i);
+		*data = (double*) malloc(sizeof(double) * i);
 		for (j = 0; j < i; j++) { (*data)[j] = numbers[j]; }
 		free(numbers);
 	} else {
@@ -325,7 +345,7 @@ int _parse_sequence(const char* buffer, float** data) {
 
 int region_parse(const char* buffer, region_container** region) {
 
-	float* data = NULL;
+	double* data = NULL;
 	const char* strdata = NULL;
 	int num;
 
@@ -336,7 +356,7 @@ int region_parse(const char* buffer, region_container** region) {
 	(*region) = NULL;
 
 	if (!buffer || !buffer[0]) {
-		return 1;
+		return 0;
 	}
 
 	strdata = __parse_uri_prefix(buffer, &prefix_type);
@@ -348,8 +368,8 @@ int region_parse(const char* buffer, region_container** region) {
 	if (!__is_valid_sequence(data, num) || num == 0) {
 		// Preserve legacy support: if four values are given and the fourth one is a number
 		// then this number is taken as a code.
-		if (num == 4 && !isnan(data[3])) {
-			(*region) = region_create_special(-(int) data[3]);
+		if (num == 4 && __is_integer_range(-data[3])) {
+			(*region) = region_create_special((int) -data[3]);
 		} else {
 			(*region) = region_create_special(TRAX_DEFAULT_CODE);
 		}
@@ -368,7 +388,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	switch (prefix_type) {
 	case SPECIAL: {
-		assert(num == 1);
+		if (num != 1 || !__is_integer_range(data[0])) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = SPECIAL;
 		(*region)->data.special = (int) data[0];
@@ -377,7 +397,7 @@ int region_parse(const char* buffer, region_container** region) {
 
 	}
 	case RECTANGLE: {
-		assert(num == 4);
+		if (num != 4) break;
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = RECTANGLE;
 
@@ -393,7 +413,7 @@ int region_parse(const char* buffer, region_container** region) {
 	case POLYGON: {
 		int j;
 
-		assert(num >= 6 && num % 2 == 0);
+		if (num < 6 || num % 2 != 0) break;
 
 		(*region) = (region_container*) malloc(sizeof(region_container));
 		(*region)->type = POLYGON;
@@ -416,18 +436,13 @@ int region_parse(const char* buffer, region_container** region) {
 		int position, length;
 		char value;
 
-		assert(num > 4);
+		if (num < 4 || !__is_valid_mask(data[0], data[1], data[2], data[3])) break;
 
-		(*region) = (region_container*) malloc(sizeof(region_container));
-		(*region)->type = MASK;
+		(*region) = region_create_mask((int) data[0], (int) data[1], (int) data[2], (int) data[3]);
 
-		(*region)->data.mask.x = (int) data[0];
-		(*region)->data.mask.y = (int) data[1];
-		(*region)->data.mask.width = (int) data[2];
-		(*region)->data.mask.height = (int) data[3];
+		if (!(*region)) break;
 
 		length = (*region)->data.mask.width * (*region)->data.mask.height;
-		(*region)->data.mask.data = (char*) malloc(sizeof(char) * length);
 
 		value = 0;
 		position = 0;
@@ -435,7 +450,7 @@ int region_parse(const char* buffer, region_container** region) {
 		// Mask is compressed with alternating RLE encoding
 		for (i = 4; i < num; i++) {
 
-			int count = (int) data[i];
+			int count = data[i] < length ? (int) MAX(data[i], 0) : length;
 			while (count && position < length) {
 				(*region)->data.mask.data[position++] = value;
 				count--;
@@ -792,6 +807,11 @@ region_container* region_create_mask(int x, int y, int width, int height) {
 		reg->data.mask.height = height;
 		reg->data.mask.data = (char *) malloc(sizeof(char) * width * height);
 
+		if (!reg->data.mask.data) {
+			free(reg);
+			return NULL;
+		}
+
 		return reg;
 
 	}
@@ -799,8 +819,6 @@ region_container* region_create_mask(int x, int y, int width, int height) {
 }
 
 
-#define MAX_MASK 10000
-
 
 int point_in_polygon(const region_polygon* polygon, float x, float y) {
 	int i, j, c = 0;
-- 
2.43.0


From ee18d09e4fb4db48d8664b06d25df2d9674ba193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 15/65] fix: region conversion keeps the position and extent of
 the region

The bounding rectangle of polygons with negative coordinates, masks made of
polygons and rectangles and the extent of empty masks were wrong.
---
 src/region.c | 64 ++++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/region.c b/src/region.c
index a80e1ae..d92998e 100644
--- a/src/region.c
+++ b/src/region.c
@@ -185,6 +185,9 @@ region_bounds compute_bounds_mask(const region_mask* mask) {
 		}
 	}
 
+	// No foreground pixels, the extent is empty
+	if (bounds.left > bounds.right) bounds = region_create_bounds(0, 0, -1, -1);
+
 	bounds.top += mask->y;
 	bounds.bottom += mask->y;
 	bounds.left += mask->x;
@@ -551,6 +554,28 @@ void region_print(FILE* out, region_container* region) {
 
 }
 
+/* Mask of the pixels that the region covers within the given bounds, NULL if there can be no such mask. */
+static region_container* __rasterize_region(const region_container* region, region_bounds bounds) {
+
+	region_container* mask;
+	double width, height;
+
+	bounds = bounds_round(bounds);
+	width = (double) bounds.right - (double) bounds.left + 1;
+	height = (double) bounds.bottom - (double) bounds.top + 1;
+
+	if (!__is_valid_mask(bounds.left, bounds.top, width, height)) return NULL;
+
+	mask = region_create_mask((int) bounds.left, (int) bounds.top, (int) width, (int) height);
+
+	if (mask)
+		region_get_mask_offset(region, mask->data.mask.data, mask->data.mask.x, mask->data.mask.y,
+		                       mask->data.mask.width, mask->data.mask.height);
+
+	return mask;
+
+}
+
 region_container* region_convert(const region_container* region, region_type type) {
 
 	region_container* reg = NULL;
@@ -565,24 +590,12 @@ region_container* region_convert(const region_container* region, region_type typ
 			reg->data.rectangle = region->data.rectangle;
 			break;
 		case POLYGON: {
+			region_bounds b = compute_bounds_polygon(&(region->data.polygon));
 
-			float top = FLT_MAX;
-			float bottom = FLT_MIN;
-			float left = FLT_MAX;
-			float right = FLT_MIN;
-			int i;
-
-			for (i = 0; i < region->data.polygon.count; i++) {
-				top = MIN(top, region->data.polygon.y[i]);
-				bottom = MAX(bottom, region->data.polygon.y[i]);
-				left = MIN(left, region->data.polygon.x[i]);
-				right = MAX(right, region->data.polygon.x[i]);
-			}
-
-			reg->data.rectangle.x = left;
-			reg->data.rectangle.y = top;
-			reg->data.rectangle.width = right - left;
-			reg->data.rectangle.height = bottom - top;
+			reg->data.rectangle.x = b.left;
+			reg->data.rectangle.y = b.top;
+			reg->data.rectangle.width = b.right - b.left;
+			reg->data.rectangle.height = b.bottom - b.top;
 			break;
 			}
 		case MASK: {
@@ -676,23 +689,10 @@ region_container* region_convert(const region_container* region, region_type typ
 	case MASK: {
 
 		switch (region->type) {
-		case RECTANGLE: {
-
-			reg = region_create_mask((int)region->data.rectangle.x, (int)region->data.rectangle.y, (int)region->data.rectangle.width, (int)region->data.rectangle.height);
-			memset(reg->data.mask.data, 255, reg->data.mask.width * reg->data.mask.height);
-
-			break;
-		}
+		case RECTANGLE:
 		case POLYGON: {
 
-			reg = (region_container*) malloc(sizeof(region_container));
-			reg->type = type;
-
-			region_bounds b = compute_bounds_polygon(&(region->data.polygon));
-
-			reg = region_create_mask(b.left, b.right, b.right - b.left, b.bottom - b.top);
-
-			region_get_mask_offset(region, reg->data.mask.data, b.left, b.right, b.right - b.left, b.bottom - b.top);
+			reg = __rasterize_region(region, region_compute_bounds(region));
 
 			break;
 		}
-- 
2.43.0


From ec2d9b1995798b2022e85a79d1e4b948c81971ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 16/65] fix: overlap of thin, touching, distant and concave
 regions

Regions a pixel wide or high and regions sharing a line of pixels had no
overlap, concave polygons were filled wrongly, and distant or huge regions
or special codes could crash the computation. The two regions are now
rasterized in their own bounds.
---
 src/region.c | 202 +++++++++++++++++++++++----------------------------
 1 file changed, 91 insertions(+), 111 deletions(-)

diff --git a/src/region.c b/src/region.c
index d92998e..4fc19c1 100644
--- a/src/region.c
+++ b/src/region.c
@@ -137,8 +137,8 @@ region_polygon round_polygon(const region_polygon polygon) {
 	region_polygon clone = clone_polygon(polygon);
 
 	for (i = 0; i < clone.count; i++) {
-		clone.x[i] = round(clone.x[i]);
-		clone.y[i] = round(clone.y[i]);
+		clone.x[i] = floor(clone.x[i] + 0.5);
+		clone.y[i] = floor(clone.y[i] + 0.5);
 	}
 
 	return clone;
@@ -887,6 +887,23 @@ region_bounds region_compute_bounds(const region_container* region) {
 
 }
 
+/* Marks a span of pixels in a row, returns the number of pixels that were not marked before. */
+static int fill_span(char* row, int width, double from, double to) {
+
+	int i, count = 0;
+	int last = (int) MIN(floor(to), width - 1);
+
+	if (!(from < width && to >= 0)) return 0;
+
+	for (i = (int) MAX(floor(from), 0); i <= last; i++) {
+		if (!row[i]) count++;
+		row[i] = 1;
+	}
+
+	return count;
+
+}
+
 int rasterize_polygon(const region_polygon polygon_input, char* mask, int width, int height) {
 
 	int nodes, pixelY, i, j, swap;
@@ -944,68 +961,56 @@ int rasterize_polygon(const region_polygon polygon_input, char* mask, int width,
 
 	} else {
 
+		double* crossings = (double*) malloc(sizeof(double) * polygon.count);
+		char* row = mask ? NULL : (char*) malloc(sizeof(char) * width);
+
 		polygon = round_polygon(polygon_input);
 
 		/*  Loop through the rows of the image. */
 		for (pixelY = 0; pixelY < height; pixelY++) {
 
-			/*  Build a list of nodes. */
-			nodes = 0;
-			j = polygon.count - 1;
+			int side;
 
-			for (i = 0; i < polygon.count; i++) {
-				if ((((int)polygon.y[i] <= pixelY) && ((int)polygon.y[j] > pixelY)) ||
-				        (((int)polygon.y[j] <= pixelY) && ((int)polygon.y[i] > pixelY)) ||
-				        (((int)polygon.y[i] < pixelY) && ((int)polygon.y[j] >= pixelY)) ||
-				        (((int)polygon.y[j] < pixelY) && ((int)polygon.y[i] >= pixelY)) ||
-				        (((int)polygon.y[i] == (int)polygon.y[j]) && ((int)polygon.y[i] == pixelY))) {
-					double r = (polygon.y[j] - polygon.y[i]);
-					double k = (polygon.x[j] - polygon.x[i]);
-					if (r != 0) {
-						nodeX[nodes++] = (int) ((double) polygon.x[i] + (double) (pixelY - polygon.y[i]) / r * k);
-					} else {
-						nodeX[nodes++] = (double) polygon.x[i];
-					}
-				}
-				j = i;
-			}
-			/* Sort the nodes, via a simple “Bubble” sort. */
-			i = 0;
-			while (i < nodes - 1) {
-				if (nodeX[i] > nodeX[i + 1]) {
-					swap = nodeX[i];
-					nodeX[i] = nodeX[i + 1];
-					nodeX[i + 1] = swap;
-					if (i) i--;
-				} else {
-					i++;
-				}
-			}
+			if (mask)
+				row = &(mask[pixelY * width]);
+			else
+				memset(row, 0, width * sizeof(char));
 
-			/*  Fill the pixels between node pairs. */
-			i = 0;
-			while (i < nodes - 1) {
-				if (nodeX[i] >= width) break;
-				// If a point is in the line then we get two identical values
-				// Ignore the first, except when it is the last point in vector
-				if (nodeX[i] == nodeX[i + 1] && i < nodes - 2) {
-					i++;
-					continue;
-				}
+			/* The row is the border of what the polygon covers above and below it, a pixel belongs
+			   to the polygon if it is covered from any side. */
+			for (side = 0; side < 2; side++) {
 
-				if (nodeX[i + 1] >= 0) {
-					if (nodeX[i] < 0) nodeX[i] = 0;
-					if (nodeX[i + 1] >= width) nodeX[i + 1] = width - 1;
-					for (j = nodeX[i]; j <= nodeX[i + 1]; j++) {
-						if (mask) mask[pixelY * width + j] = 1;
-						sum++;
-					}
+				/*  Build a sorted list of places where the outline crosses the row. */
+				nodes = 0;
+				for (i = 0, j = polygon.count - 1; i < polygon.count; j = i++) {
+					double crossing;
+
+					if (side == 0 && (polygon.y[i] < pixelY) == (polygon.y[j] < pixelY)) continue;
+					if (side == 1 && (polygon.y[i] <= pixelY) == (polygon.y[j] <= pixelY)) continue;
+
+					crossing = polygon.x[i] + (pixelY - (double) polygon.y[i]) * ((double) polygon.x[j] - polygon.x[i]) /
+					           ((double) polygon.y[j] - polygon.y[i]);
+
+					for (swap = nodes++; swap > 0 && crossings[swap - 1] > crossing; swap--)
+						crossings[swap] = crossings[swap - 1];
+					crossings[swap] = crossing;
 				}
-				i += 2;
 
+				/*  Fill the pixels between node pairs. */
+				for (i = 0; i + 1 < nodes; i += 2)
+					sum += fill_span(row, width, crossings[i], crossings[i + 1]);
+			}
+
+			/*  Horizontal parts of the outline. */
+			for (i = 0, j = polygon.count - 1; i < polygon.count; j = i++) {
+				if (polygon.y[i] == pixelY && polygon.y[j] == pixelY)
+					sum += fill_span(row, width, MIN(polygon.x[i], polygon.x[j]), MAX(polygon.x[i], polygon.x[j]));
 			}
 		}
 
+		free(crossings);
+		if (!mask) free(row);
+
 		free_polygon(&polygon);
 
 	}
@@ -1118,15 +1123,12 @@ float compute_polygon_overlap(const region_polygon* p1, const region_polygon* p2
 
 region_overlap region_compute_overlap(const region_container* ra, const region_container* rb, region_bounds bounds) {
 
-	int x, y;
-	int width, height;
 	region_bounds b1, b2;
-	double a1, a2;
+	int i, j;
+	int left, top, right, bottom;
 	int vol_1 = 0;
 	int vol_2 = 0;
-	int mask_1 = 0;
-	int mask_2 = 0;
-	int mask_intersect = 0;
+	int intersection = 0;
 
 	region_container* ta = NULL;
 	region_container* tb = NULL;
@@ -1135,6 +1137,7 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 	overlap.only1 = 0;
 	overlap.only2 = 0;
 
+	if (ra->type == SPECIAL || rb->type == SPECIAL) return overlap;
 
 	if (__flags & REGION_LEGACY_RASTERIZATION) {
 		b1 = bounds_intersection(region_compute_bounds(ra), bounds);
@@ -1144,71 +1147,44 @@ region_overlap region_compute_overlap(const region_container* ra, const region_c
 		b2 = bounds_intersection(bounds_round(region_compute_bounds(rb)), bounds);
 	}
 
-	x = MIN(b1.left, b2.left);
-	y = MIN(b1.top, b2.top);
+	// Masks can not be created for regions that are empty or overflowed, the
+	// overlap is 0 in this case.
+	ta = __rasterize_region(ra, b1);
+	tb = __rasterize_region(rb, b2);
 
-	width = (int) (MAX(b1.right, b2.right) - x) + 1;
-	height = (int) (MAX(b1.bottom, b2.bottom) - y) + 1;
+	if (ta && tb) {
 
-	// Fixing crashes due to overflowed regions, a simple check if the ratio
-	// between the two bounding boxes is simply too big and the overlap would
-	// be 0 anyway.
-	
-	a1 = (b1.right - b1.left) * (b1.bottom - b1.top);
-	a2 = (b2.right - b2.left) * (b2.bottom - b2.top);
+		const region_mask* ma = &(ta->data.mask);
+		const region_mask* mb = &(tb->data.mask);
 
-	if (a1 / a2 < 1e-10 || a2 / a1 < 1e-10 || width < 1 || height < 1) 
-		return overlap;
-
-	if (bounds_overlap(b1, b2) == 0) {
-
-		int i;
-
-		ta = region_create_mask(b1.left, b1.top, b1.right - b1.left + 1, b1.bottom - b1.top + 1);
-		tb = region_create_mask(b2.left, b2.top, b2.right - b2.left + 1, b2.bottom - b2.top + 1);
-
-		region_get_mask_offset(ra, ta->data.mask.data, b1.left, b1.top, b1.right - b1.left + 1, b1.bottom - b1.top + 1);
-		region_get_mask_offset(rb, tb->data.mask.data, b2.left, b2.top, b2.right - b2.left + 1, b2.bottom - b2.top + 1);
-
-		for (i = 0; i < (b1.right - b1.left + 1) * (b1.bottom - b1.top + 1); i++) {
-			if (ta->data.mask.data[i]) vol_1++;
+		for (i = 0; i < ma->width * ma->height; i++) {
+			if (ma->data[i]) vol_1++;
 		}
 
-		for (i = 0; i < (b2.right - b2.left + 1) * (b2.bottom - b2.top + 1); i++) {
-			if (tb->data.mask.data[i]) vol_2++;
+		for (i = 0; i < mb->width * mb->height; i++) {
+			if (mb->data[i]) vol_2++;
 		}
 
-		overlap.only1 = (float) vol_1 / (float) (vol_1 + vol_2);
-		overlap.only2 = (float) vol_2 / (float) (vol_1 + vol_2);
+		left = MAX(ma->x, mb->x);
+		top = MAX(ma->y, mb->y);
+		right = MIN(ma->x + ma->width, mb->x + mb->width);
+		bottom = MIN(ma->y + ma->height, mb->y + mb->height);
 
-	} else {
-
-		int i;
-		char* mask1;
-		char* mask2;
-
-		ta = region_create_mask(x, y, width, height);
-		tb = region_create_mask(x, y, width, height);
-
-		mask1 = ta->data.mask.data;
-		mask2 = tb->data.mask.data;
-
-		region_get_mask_offset(ra, ta->data.mask.data, x, y, width, height);
-		region_get_mask_offset(rb, tb->data.mask.data, x, y, width, height);
+		for (j = top; j < bottom; j++) {
+			for (i = left; i < right; i++) {
+				if (ma->data[(i - ma->x) + (j - ma->y) * ma->width] && mb->data[(i - mb->x) + (j - mb->y) * mb->width])
+					intersection++;
+			}
+		}
 
+		if (vol_1 + vol_2 > 0) {
+			float total = (float) (vol_1 + vol_2 - intersection);
 
-		for (i = 0; i < width * height; i++) {
-			if (mask1[i]) vol_1++;
-			if (mask2[i]) vol_2++;
-			if (mask1[i] && mask2[i]) mask_intersect++;
-			else if (mask1[i]) mask_1++;
-			else if (mask2[i]) mask_2++;
+			overlap.only1 = (float) (vol_1 - intersection) / total;
+			overlap.only2 = (float) (vol_2 - intersection) / total;
+			overlap.overlap = (float) intersection / total;
 		}
 
-		overlap.only1 = (float) mask_1 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.only2 = (float) mask_2 / (float) (mask_1 + mask_2 + mask_intersect);
-		overlap.overlap = mask_intersect / (float) (mask_1 + mask_2 + mask_intersect);
-
 	}
 
 	if (ta) region_release(&ta);
@@ -1245,7 +1221,11 @@ void region_get_mask(const region_container* r, char* mask, int width, int heigh
 
 void region_get_mask_offset(const region_container* r, char* mask, int x, int y, int width, int height) {
 
-	if (r->type == MASK) {
+	if (r->type == SPECIAL) {
+
+		memset(mask, 0, width * height * sizeof(char));
+
+	} else if (r->type == MASK) {
 		int i, j;
 
 		int tx = MAX((r->data.mask).x, x);
-- 
2.43.0


From 950122e04a8597bafdc90233260e6263a2b22dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 17/65] fix: pixel lookup in masks at negative positions

The position was rounded towards zero, which could also read outside of
the mask.
---
 src/region.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/region.c b/src/region.c
index 4fc19c1..62b90a7 100644
--- a/src/region.c
+++ b/src/region.c
@@ -824,18 +824,21 @@ int point_in_polygon(const region_polygon* polygon, float x, float y) {
 	int i, j, c = 0;
 	for (i = 0, j = polygon->count - 1; i < polygon->count; j = i++) {
 		if ( ((polygon->y[i] > y) != (polygon->y[j] > y)) &&
-		        (x < (polygon->x[j] - polygon->x[i]) * (y - polygon->y[i]) / (polygon->y[j] - polygon->y[i]) + polygon->x[i]) )
+		        (x < ((double) polygon->x[j] - polygon->x[i]) * ((double) y - polygon->y[i]) / ((double) polygon->y[j] - polygon->y[i]) + polygon->x[i]) )
 			c = !c;
 	}
 	return c;
 }
 
 int point_in_mask(const region_mask* mask, float x, float y) {
-	
-	if (x < mask->x || y < mask->y || x >= mask->x + mask->width || y >= mask->y + mask->height)
+
+	double column = floor((double) x - mask->x);
+	double row = floor((double) y - mask->y);
+
+	if (!(column >= 0 && column < mask->width && row >= 0 && row < mask->height))
 		return 0;
 
-	return mask->data[((int)x - mask->x) + ((int)y - mask->y) * mask->width] != 0;
+	return mask->data[(int) column + (int) row * mask->width] != 0;
 }
 
 
-- 
2.43.0


From 9300dceaa6be0de03c082078a0069591a4529b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 18/65] fix: object lists may be given their own regions, no
 region or themselves

---
 src/region.c |  2 ++
 src/trax.c   | 12 ++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/region.c b/src/region.c
index 62b90a7..5195ce7 100644
--- a/src/region.c
+++ b/src/region.c
@@ -729,6 +729,8 @@ region_container* region_convert(const region_container* region, region_type typ
 
 void region_release(region_container** region) {
 
+	if (!region || !*region) return;
+
 	switch ((*region)->type) {
 	case RECTANGLE:
 		break;
diff --git a/src/trax.c b/src/trax.c
index 3892c9f..b43d000 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -2082,9 +2082,12 @@ void trax_object_list_set(trax_object_list* list, int index, trax_region* region
 
     if (index < 0 || index >= list->size) return;
 
+    // The region can be the one that is already stored in the list
+    region = trax_region_clone(region);
+
     trax_region_release(&(list->regions[index]));
 
-    list->regions[index] = trax_region_clone(region);
+    list->regions[index] = region;
 
 }
 
@@ -2107,17 +2110,18 @@ int trax_object_list_count(const trax_object_list* list) {
 
 int trax_object_list_append(trax_object_list* list, const trax_object_list* src) {
 
-    int i, o;
+    int i, o, n;
 
     assert(list && src);
 
     o = list->size;
-    list->size += src->size;
+    n = src->size; // The list can be appended to itself
+    list->size += n;
 
     list->regions = (trax_region**) realloc(list->regions, sizeof(trax_region*) * list->size);
     list->properties = (trax_properties**) realloc(list->properties, sizeof(trax_properties*) * list->size);
 
-    for (i = 0; i < src->size; i++) {
+    for (i = 0; i < n; i++) {
         list->regions[i + o] = trax_region_clone(src->regions[i]);
         list->properties[i + o] = trax_properties_create();
         copy_properties(src->properties[i], list->properties[i + o], COPY_ALL | COPY_OVERWRITE);
-- 
2.43.0


From f7d3ef451ea1c8a532e4646b69d7bfc5e640b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 19/65] fix: Initialize metadata flags of servers before
 protocol version 4

---
 src/trax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trax.c b/src/trax.c
index b43d000..7120153 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -712,8 +712,9 @@ trax_handle* server_setup(trax_metadata *metadata, message_stream* stream, const
     if (metadata->tracker_family)
         trax_properties_set(properties, "trax.family", metadata->tracker_family);
 
+    flags = 0;
+
     if (IS_VERSION_4(server)) {
-        flags = 0;
         if (metadata->flags & TRAX_METADATA_MULTI_OBJECT) {
             flags |= TRAX_METADATA_MULTI_OBJECT;
             trax_properties_set_int(properties, "trax.multiobject", 1);
-- 
2.43.0


From 784b55521e2a265b97ad8414f0ffc3e6c5e7b440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 20/65] fix: properties may be appended to themselves

---
 src/trax.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trax.c b/src/trax.c
index 7120153..5339c9c 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1945,6 +1945,7 @@ trax_properties* trax_properties_copy(const trax_properties* original) {
 void trax_properties_append(const trax_properties* source, trax_properties* drain, int overwrite) {
 
     int flags = COPY_ALL;
+    if (source == drain) return; // All entries are already there
     if (overwrite) flags |= COPY_OVERWRITE;
 
     copy_properties(source, drain, flags);
-- 
2.43.0


From 851ba9236058f873ae796aeb5b437df25f85d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 21/65] fix: copies, moves and self-assignment of C++ objects

---
 src/traxpp.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index c09e26f..13f716a 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -59,7 +59,7 @@ Wrapper::Wrapper() : pn(NULL) {
 }
 
 Wrapper::Wrapper(const Wrapper& count) : pn(count.pn) {
-	acquire();
+	if (pn) acquire();
 }
 
 
@@ -72,9 +72,11 @@ Wrapper::~Wrapper() {
 }
 
 void Wrapper::acquire(const Wrapper& lhs) {
+	// Both already share the same resource (also covers self-assignment)
+	if (pn == lhs.pn) return;
 	release();
 	pn = lhs.pn;
-	acquire();
+	if (pn) acquire();
 }
 
 void Wrapper::swap(Wrapper& lhs) {
@@ -517,8 +519,8 @@ Image::Image(const Image& original) : Wrapper(original) {
 	image = original.image;
 }
 
-Image::Image(Image&& original) : Wrapper(std::move(original)) {
-	image = original.image;
+Image::Image(Image&& original) : Wrapper(std::move(original)), image(NULL) {
+	std::swap(image, original.image);
 }
 
 Image& Image::operator=(const Image& lhs) throw() {
@@ -621,7 +623,7 @@ ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
 	_properties = original._properties;
 }
 
-ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)) {
+ObjectList::ObjectList(ObjectList&& original) : Wrapper(std::move(original)), list(NULL) {
 	std::swap(list, original.list);
 	std::swap(_regions, original._regions);
 	std::swap(_properties, original._properties);
@@ -706,7 +708,7 @@ ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
 	images = original.images;
 }
 
-ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)) {
+ImageList::ImageList(ImageList&& original)  : Wrapper(std::move(original)), list(NULL) {
 	std::swap(list, original.list);
 	std::swap(images, original.images);
 }
@@ -789,7 +791,7 @@ Region::Region(const Region& original) : Wrapper(original) {
 	region = original.region;
 }
 
-Region::Region(Region&& original) : Wrapper(std::move(original)) {
+Region::Region(Region&& original) : Wrapper(std::move(original)), region(NULL) {
 	std::swap(region, original.region);
 }
 
@@ -1035,7 +1037,7 @@ Properties::Properties(const Properties& original) : Wrapper(original) {
 	properties = original.properties;
 }
 
-Properties::Properties(Properties&& original) : Wrapper(std::move(original)) {
+Properties::Properties(Properties&& original) : Wrapper(std::move(original)), properties(NULL) {
 	std::swap(properties, original.properties);
 }
 
@@ -1045,6 +1047,12 @@ Properties& Properties::operator=(const Properties& original) throw() {
 	return *this;
 }
 
+Properties& Properties::operator=(Properties&& original) throw() {
+	swap(original);
+	std::swap(properties, original.properties);
+	return *this;
+}
+
 Properties::~Properties() {
 	release();
 }
@@ -1056,9 +1064,10 @@ int Properties::size() const {
 
 void Properties::clear()  {
 	if (!properties) return;
-	if (claims() > 1)
+	if (claims() > 1) {
 		release();
-	else
+		properties = NULL;
+	} else
 		trax_properties_clear(properties);
 }
 
-- 
2.43.0


From 14d7064d563e149cb31a25db4323c3760020b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 22/65] fix: C++ object and image lists own and copy their
 elements

---
 include/trax.h |  4 +++
 src/traxpp.cpp | 76 ++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 68 insertions(+), 12 deletions(-)

diff --git a/include/trax.h b/include/trax.h
index 88dafa3..900d691 100644
--- a/include/trax.h
+++ b/include/trax.h
@@ -1092,6 +1092,8 @@ protected:
 
 private:
 
+    void ensure_unique();
+
     std::vector<Image> images;
 
     trax_image_list* list;
@@ -1145,6 +1147,8 @@ protected:
 
 private:
 
+    void ensure_unique();
+
     std::vector<Region> _regions;
     std::vector<Properties> _properties;
 
diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 13f716a..434918f 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -611,10 +611,8 @@ ObjectList::ObjectList() {
 	list = NULL;
 }
 
-ObjectList::ObjectList(int count) {
-	list = trax_object_list_create(count);
-	_regions.resize(count);
-	_properties.resize(count);
+ObjectList::ObjectList(int count) : list(NULL) {
+	wrap(trax_object_list_create(count));
 }
 
 ObjectList::ObjectList(const ObjectList& original) : Wrapper(original) {
@@ -651,10 +649,13 @@ ObjectList::~ObjectList() {
 }
 
 Region ObjectList::get(int index) const {
+	if (index < 0 || index >= size()) return Region();
 	return _regions[index];
 }
 
 void ObjectList::set(int index, Region region) {
+	if (index < 0 || index >= size()) return;
+	ensure_unique();
 	_regions[index] = region;
 	list->regions[index] = region.region;
 	// Do not use C function as it will try to free old region
@@ -662,6 +663,7 @@ void ObjectList::set(int index, Region region) {
 }
 
 Properties ObjectList::properties(int index) const {
+	if (index < 0 || index >= size()) return Properties();
 	return _properties[index];
 }
 
@@ -678,6 +680,7 @@ void ObjectList::cleanup() {
 	free(list->regions);
 	free(list->properties);
 	free(list);
+	list = NULL;
 	_regions.clear();
 	_properties.clear();
 }
@@ -698,9 +701,28 @@ void ObjectList::wrap(trax_object_list* obj) {
 }
 
 
-ImageList::ImageList()  {
-	list = trax_image_list_create();
-	images.resize(TRAX_CHANNELS);
+void ObjectList::ensure_unique() {
+
+	if (claims() < 2) return;
+
+	trax_object_list* copy = trax_object_list_create(size());
+
+	// Elements are owned by the proxies of each list
+	for (int i = 0; i < size(); i++) {
+		trax_region_release(&copy->regions[i]);
+		trax_properties_release(&copy->properties[i]);
+		copy->regions[i] = list->regions[i];
+		copy->properties[i] = list->properties[i];
+	}
+
+	release();
+	list = copy;
+	acquire();
+
+}
+
+ImageList::ImageList() : list(NULL) {
+	wrap(trax_image_list_create());
 }
 
 ImageList::ImageList(const ImageList& original)  : Wrapper(original) {
@@ -733,20 +755,30 @@ ImageList::~ImageList() {
 
 Image ImageList::get(int channel) const {
 
-	return images[TRAX_CHANNEL_INDEX(channel)];
+	int index = TRAX_CHANNEL_INDEX(channel);
+
+	if (index < 0 || index >= (int) images.size()) return Image();
+
+	return images[index];
 
 }
 
 bool ImageList::has(int channel) const {
 
-	return !images[TRAX_CHANNEL_INDEX(channel)].empty();
+	return !get(channel).empty();
 
 }
 
 void ImageList::set(Image image, int channel) {
 
-	images[TRAX_CHANNEL_INDEX(channel)] = image;
-	list->images[TRAX_CHANNEL_INDEX(channel)] = image.image;
+	int index = TRAX_CHANNEL_INDEX(channel);
+
+	if (index < 0 || index >= TRAX_CHANNELS) return;
+
+	ensure_unique();
+
+	images[index] = image;
+	list->images[index] = image.image;
 
 }
 
@@ -754,7 +786,7 @@ int ImageList::size() const {
 
 	int count = 0;
 
-	for (int i = 0; i < TRAX_CHANNELS; i++) {
+	for (size_t i = 0; i < images.size(); i++) {
 
 		if (!images[i].empty())
 			count++;
@@ -777,11 +809,31 @@ void ImageList::wrap(trax_image_list* obj) {
 	list = obj;
 	if (list) acquire();
 
+	images.assign(TRAX_CHANNELS, Image());
+
 	for (int i = 0; i < TRAX_CHANNELS; i++)
 		images[i].wrap(obj->images[i]);
 
 }
 
+void ImageList::ensure_unique() {
+
+	if (!list) wrap(trax_image_list_create());
+
+	if (claims() < 2) return;
+
+	trax_image_list* copy = trax_image_list_create();
+
+	// Images are owned by the proxies of each list
+	for (int i = 0; i < TRAX_CHANNELS; i++)
+		copy->images[i] = list->images[i];
+
+	release();
+	list = copy;
+	acquire();
+
+}
+
 
 Region::Region() {
 	region = NULL;
-- 
2.43.0


From d402225586dea3a5a78056be749b517cab371b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 23/65] fix: writing rows of shared masks and images does not
 change copies

---
 src/traxpp.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index 434918f..d3270d8 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -1,4 +1,6 @@
 
+#include <string.h>
+
 #include "trax.h"
 
 namespace trax {
@@ -584,6 +586,15 @@ void Image::get_memory_header(int* width, int* height, int* format) const {
 }
 
 char* Image::write_memory_row(int row) {
+	if (claims() > 1 && type() == TRAX_IMAGE_MEMORY) {
+		int width, height, format;
+		trax_image_get_memory_header(image, &width, &height, &format);
+		int bytes = width * ((format == TRAX_IMAGE_MEMORY_RGB) ? 3 : (format == TRAX_IMAGE_MEMORY_GRAY16) ? 2 : 1);
+		trax_image* copy = trax_image_create_memory(width, height, format);
+		for (int i = 0; i < height; i++)
+			memcpy(trax_image_write_memory_row(copy, i), trax_image_get_memory_row(image, i), bytes);
+		wrap(copy);
+	}
 	return trax_image_write_memory_row(image, row);
 }
 
@@ -951,6 +962,9 @@ void Region::get_mask_header(int* x, int* y, int* width, int* height) const {
 
 char* Region::write_mask_row(int row) {
 
+	if (claims() > 1 && type() == TRAX_REGION_MASK)
+		wrap(trax_region_clone(region));
+
 	return trax_region_write_mask_row(region, row);
 
 }
-- 
2.43.0


From dd3b468649a97c690bd6184ce54055306842b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 24/65] fix: release received objects in C++ server wait

---
 src/traxpp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index d3270d8..e5901ed 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -461,6 +461,7 @@ int ServerMOT::wait(ImageList& image, Region& region, Properties& properties) {
 			region.wrap(tregion);
 			trax_properties_append(trax_object_list_properties(tobjects, 0), properties.properties, 1);
 		}
+		trax_object_list_release(&tobjects);
 	}
 
 	return result;
-- 
2.43.0


From bd32fec797b484fd7168e8a0d473212509510449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 25/65] fix: custom metadata entries are kept in C++ handle
 metadata

---
 src/traxpp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index e5901ed..c16ed7c 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -141,6 +141,9 @@ Metadata::Metadata(trax_metadata* metadata) {
     wrap(trax_metadata_create(metadata->format_region, metadata->format_image, metadata->channels,
 		metadata->tracker_name, metadata->tracker_description, metadata->tracker_family, metadata->flags));
 
+    if (metadata->custom)
+        trax_properties_append(metadata->custom, this->metadata->custom, 1);
+
 }
 
 Metadata::~Metadata() {
-- 
2.43.0


From 5c10db0d5d59b98aa95b8dae6efd6a72452aaca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:50 +0000
Subject: [PATCH 26/65] fix: C++ server reply sends the properties of the
 object

---
 src/traxpp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/traxpp.cpp b/src/traxpp.cpp
index c16ed7c..745f310 100644
--- a/src/traxpp.cpp
+++ b/src/traxpp.cpp
@@ -477,7 +477,8 @@ int ServerMOT::reply(const Region& region, const Properties& properties) {
 
 	trax_object_list* objects = trax_object_list_create(1);
 	trax_object_list_set(objects, 0, region.region);
-	trax_properties_append(trax_object_list_properties(objects, 0), properties.properties, 0);
+	if (properties.properties)
+		trax_properties_append(properties.properties, trax_object_list_properties(objects, 0), 1);
 
 	int result = trax_server_reply_mot(handle, objects);
 
-- 
2.43.0


From 045b99475fbe5f59d08a5d55cd74ae383677b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 27/65] fix: tracker command lines that are empty,
 unterminated, long or padded with spaces

---
 support/client/process.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index b0265d6..2a2ee2a 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -94,7 +94,7 @@ int __next_token(const char* str, int start, char* buffer, int len)
 
     buffer[e - s] = '\0';
 
-    return str[e] == '\0' ? e : (quotes ? e + 2 : e + 1);
+    return str[e] == '\0' ? e : e + 1;
 }
 
 char** parse_command(const char* command) {
@@ -107,10 +107,15 @@ char** parse_command(const char* command) {
 
     while (1) {
 
-        position = __next_token(command, position, buffer, 1024);
+        while (command[position] == ' ') position++;
+
+        if (position >= length)
+            break;
+
+        position = __next_token(command, position, buffer, length + 1);
 
         if (position < 0) {
-            for (int j = 0; j < i; j++) delete[] tokens[j];
+            for (int j = 0; j < i; j++) free(tokens[j]);
             delete [] tokens;
             delete [] buffer;
             return NULL;
@@ -152,7 +157,7 @@ Process::Process(string command, bool explicit_mode) : running(false), explicit_
 
     char** tokens = parse_command(command.c_str());
 
-    if (!tokens[0])
+    if (!tokens || !tokens[0])
         throw std::runtime_error("Unable to parse command string");
 
     program = tokens[0];
-- 
2.43.0


From 3cb4e02398422a8264498beb889689471f58d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 28/65] fix: tracker streams belong to one process and close
 with it

---
 support/client/process.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index 2a2ee2a..e698c4c 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -147,14 +147,23 @@ char** parse_command(const char* command) {
 }
 
 
+#ifndef WIN32
+#define CLOSE_STREAM(F) { if ((F) != -1) { close(F); (F) = -1; } }
+#endif
+
 Process::Process(string command, bool explicit_mode) : running(false), explicit_mode(explicit_mode) {
 
 #ifdef WIN32
     piProcInfo.hProcess = 0;
 #else
     pid = 0;
+    action_initialized = false;
+    for (int i = 0; i < 2; i++) out[i] = in[i] = err[i] = -1;
 #endif
 
+    p_stdin = p_stdout = p_stderr = -1;
+    exit_status = -1;
+
     char** tokens = parse_command(command.c_str());
 
     if (!tokens || !tokens[0])
@@ -327,9 +336,15 @@ bool Process::start() {
 
         if (pipe(out) == -1 || pipe(in) == -1 || pipe(err) == -1) {
             std::cerr << "Error: unable to configure process streams" << std::endl;
+            cleanup();
             return false;
         }
 
+        // Our ends of the streams must not be passed on to any process.
+        fcntl(out[1], F_SETFD, FD_CLOEXEC);
+        fcntl(in[0], F_SETFD, FD_CLOEXEC);
+        fcntl(err[0], F_SETFD, FD_CLOEXEC);
+
         vector<string> vars;
 
         map<string, string>::iterator iter;
@@ -382,6 +397,11 @@ bool Process::start() {
 
         if (directory.size() > 0) CHDIR_SOFT(cwd);
 
+        // The other ends belong to the process, its end has to close the streams.
+        CLOSE_STREAM(out[0]);
+        CLOSE_STREAM(in[1]);
+        CLOSE_STREAM(err[1]);
+
         p_stdin = out[1];
         p_stdout = in[0];
         p_stderr = err[0];
@@ -502,12 +522,12 @@ void Process::cleanup() {
 
 #else
 
-        if (out[0] != -1) {close(out[0]); out[0] = -1; };
-        if (err[0] != -1) {close(err[0]); err[0] = -1; };
-        if (in[1] != -1) {close(in[1]); in[1] = -1; };
-        if (out[1] != -1) {close(out[1]); out[1] = -1; };
-        if (err[1] != -1) {close(err[1]); err[1] = -1; };
-        if (in[0] != -1) {close(in[0]); in[0] = -1; };
+        CLOSE_STREAM(out[0]);
+        CLOSE_STREAM(err[0]);
+        CLOSE_STREAM(in[1]);
+        CLOSE_STREAM(out[1]);
+        CLOSE_STREAM(err[1]);
+        CLOSE_STREAM(in[0]);
 
         if (action_initialized) {
             posix_spawn_file_actions_destroy(&action);
-- 
2.43.0


From 956e385979d844238bb7991e085c55ae5d7b4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 29/65] fix: a tracker does not inherit the session of its
 caller

---
 support/client/process.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/support/client/process.cpp b/support/client/process.cpp
index e698c4c..88461e1 100644
--- a/support/client/process.cpp
+++ b/support/client/process.cpp
@@ -345,6 +345,11 @@ bool Process::start() {
         fcntl(in[0], F_SETFD, FD_CLOEXEC);
         fcntl(err[0], F_SETFD, FD_CLOEXEC);
 
+        if (explicit_mode) {
+            env["TRAX_OUT"] = int_to_string(in[1]);
+            env["TRAX_IN"] = int_to_string(out[0]);
+        }
+
         vector<string> vars;
 
         map<string, string>::iterator iter;
@@ -365,8 +370,6 @@ bool Process::start() {
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
         } else {
             posix_spawn_file_actions_adddup2(&action, err[1], 2);
-            vars.push_back(string("TRAX_OUT=") + int_to_string(in[1]));
-            vars.push_back(string("TRAX_IN=") + int_to_string(out[0]));
         }
 
         std::vector<char *> vars_c(vars.size() + 1);
@@ -696,7 +699,12 @@ void Process::copy_environment() {
         char* ptr = strchr(var, '=');
         if (!ptr) continue;
 
-        set_environment(string(var, ptr - var), string(ptr + 1));
+        string key(var, ptr - var);
+
+        // These describe the session of the caller and not the one of the new process.
+        if (key == "TRAX_IN" || key == "TRAX_OUT" || key == "TRAX_SOCKET") continue;
+
+        set_environment(key, string(ptr + 1));
 
     }
 
-- 
2.43.0


From aca1c547f2cb3c589df02ee328597c211a9001b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 30/65] fix: the process of a tracker is controlled by one
 thread at a time

The watchdog thread, the logger thread and the caller used the process, the
client handle and the watchdog counter without synchronization: a process that
was just started could be deleted, a handle could be released while in use, a
timeout could be lost, the quit message could block forever on a full stream,
a failed start left a process behind and writing to a dead tracker raised
SIGPIPE in the client.
---
 support/client/client.cpp              | 392 +++++++++++++++++--------
 support/client/include/trax/client.hpp |   1 +
 2 files changed, 274 insertions(+), 119 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 083fc91..2bcf275 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -60,6 +60,8 @@ __inline void sleep(long time) {
 #include <sys/select.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
+#include <poll.h>
+#include <fcntl.h>
 #define closesocket close
 //#endif
 
@@ -219,6 +221,71 @@ int read_stream(int fd, char* buffer, int len) {
 
 }
 
+// An own descriptor of a stream that may be closed by another thread at any time.
+static int duplicate_stream(int fd) {
+
+	if (fd < 0) return -1;
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+	return _dup(fd);
+#else
+	return fcntl(fd, F_DUPFD_CLOEXEC, 0);
+#endif
+
+}
+
+// Can a short message be written to the stream without waiting for the other side?
+static bool stream_accepts(int fd) {
+
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+	return true;
+#else
+	if (fd < 0) return true;
+	struct pollfd descriptor;
+	descriptor.fd = fd;
+	descriptor.events = POLLOUT;
+	descriptor.revents = 0;
+	return poll(&descriptor, 1, 0) != 0;
+#endif
+
+}
+
+// Writing to a tracker that is gone is reported as an error and not by a signal.
+class PipeSignalGuard {
+public:
+#if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER)
+	PipeSignalGuard() {}
+	~PipeSignalGuard() {}
+#else
+	PipeSignalGuard() {
+
+		sigset_t waiting;
+		sigemptyset(&signals);
+		sigaddset(&signals, SIGPIPE);
+		sigpending(&waiting);
+		pending = sigismember(&waiting, SIGPIPE) == 1;
+		pthread_sigmask(SIG_BLOCK, &signals, &previous);
+
+	}
+
+	~PipeSignalGuard() {
+
+		sigset_t waiting;
+		int received;
+		sigpending(&waiting);
+		if (!pending && sigismember(&waiting, SIGPIPE) == 1)
+			sigwait(&signals, &received);
+		pthread_sigmask(SIG_SETMASK, &previous, NULL);
+
+	}
+
+private:
+	sigset_t signals;
+	sigset_t previous;
+	bool pending;
+#endif
+
+};
+
 namespace trax {
 
 int next_available_socket_port = TRAX_DEFAULT_PORT;
@@ -226,7 +293,7 @@ class TrackerProcess::State : public Synchronized {
 public:
 	State(const string& command, const map<std::string, std::string> environment, ConnectionMode connection, VerbosityMode verbosity, int timeout, string directory, ostream *log):
 		client(NULL), process(NULL), command(command), environment(environment), socket_id(-1), socket_port(-1),
-		connection(connection), verbosity(verbosity), timeout(timeout), directory(directory) {
+		tracking(false), connection(connection), verbosity(verbosity), timeout(timeout), watchdog_timeout(0), calling(false), directory(directory) {
 
 		timer_init();
 
@@ -257,7 +324,6 @@ public:
 		watchdog_active = true;
 		logger_active = true;
 
-		stop_watchdog();
 		reset_logger();
 
 		CREATE_THREAD(watchdog_thread, watchdog_loop, this);
@@ -277,10 +343,7 @@ public:
 
 		stop_process();
 
-		if (client) {
-			delete client;
-			client = NULL;
-		}
+		delete_client();
 
 		if (connection == CONNECTION_SOCKETS) {
 			print_debug("Closing server socket.");
@@ -296,107 +359,141 @@ public:
 
 	bool start_process() {
 
-		if (process_running()) return false;
+		int input = -1;
+		int output = -1;
+		bool started = false;
 
-		if (client) {
-			delete client;
-			client = NULL;
-			print_debug("Deleted stale client");
-		}
+		MUTEX_SYNCHRONIZE(process_state_mutex) {
 
-		print_debug("Creating process %s", command.c_str());
+			if (process && process->is_alive()) return false;
 
-		process_state_mutex.acquire();
-		process = new Process(command, connection == CONNECTION_EXPLICIT);
-		if (!directory.empty()) {
-			print_debug("Working directory is %s", directory.c_str());
-			process->set_directory(directory);
-		}
-		process_state_mutex.release();
+			// Whatever remained from the previous process ...
+			terminate_process();
 
-		process->copy_environment();
+			delete_client();
 
-		std::map<std::string, std::string>::const_iterator iter;
-		for (iter = environment.begin(); iter != environment.end(); ++iter) {
-			process->set_environment(iter->first, iter->second);
-		}
+			tracking = false;
 
-		if (connection == CONNECTION_SOCKETS) {
-			char port_buffer[24];
-			sprintf(port_buffer, "%d", socket_port);
-			process->set_environment("TRAX_SOCKET", port_buffer);
-		}
+			print_debug("Creating process %s", command.c_str());
 
-		reset_logger();
+			process = new Process(command, connection == CONNECTION_EXPLICIT);
+			if (!directory.empty()) {
+				print_debug("Working directory is %s", directory.c_str());
+				process->set_directory(directory);
+			}
 
-		bool started = false;
-		print_debug("Starting process");
-		started = process->start();
+			process->copy_environment();
+
+			std::map<std::string, std::string>::const_iterator iter;
+			for (iter = environment.begin(); iter != environment.end(); ++iter) {
+				process->set_environment(iter->first, iter->second);
+			}
+
+			if (connection == CONNECTION_SOCKETS) {
+				char port_buffer[24];
+				sprintf(port_buffer, "%d", socket_port);
+				process->set_environment("TRAX_SOCKET", port_buffer);
+			}
+
+			reset_logger();
+
+			print_debug("Starting process");
+			started = process->start();
+
+			if (started) {
+				input = process->get_input();
+				output = process->get_output();
+				print_debug("Tracker process ID: %d", process->get_handle());
+			} else {
+				delete process;
+				process = NULL;
+			}
+
+		}
 
 		if (!started) {
 			print_debug("Unable to start process");
 			throw std::runtime_error("Unable to start the tracker process");
-		} else {
+		}
 
-			sleepf(0.1);
-			if (!process->is_alive()) {
-				print_debug("Unable to start process");
-				throw std::runtime_error("Unable to start the tracker process");
-			}
+		sleepf(0.1);
+		if (!process_running()) {
+			print_debug("Unable to start process");
+			stop_process();
+			throw std::runtime_error("Unable to start the tracker process");
+		}
 
-			start_watchdog();
+		start_watchdog();
 
-			Logging logger = trax_no_log;
+		Logging logger = trax_no_log;
 
-			if (verbosity != VERBOSITY_SILENT)
-				logger = Logging(client_logger, this, 0);
+		if (verbosity != VERBOSITY_SILENT)
+			logger = Logging(client_logger, this, 0);
 
-			if (connection == CONNECTION_SOCKETS) {
-				print_debug("Setting up TraX with TCP socket connection");
-				client = new Client(socket_id, logger, timeout);
-			} else {
-				print_debug("Setting up TraX with %s streams connection", (connection == CONNECTION_EXPLICIT) ? "dedicated" : "standard");
-				client = new Client(process->get_output(), process->get_input(), logger);
-			}
-			// TODO: check tracker exit state
-			if (!(*client)) {
-				print_debug("Unable to establish connection.");
-				throw std::runtime_error("Unable to establish connection.");
-			}
+		Client* connected = NULL;
 
-			stop_watchdog();
+		if (connection == CONNECTION_SOCKETS) {
+			print_debug("Setting up TraX with TCP socket connection");
+			connected = new Client(socket_id, logger, timeout);
+		} else {
+			print_debug("Setting up TraX with %s streams connection", (connection == CONNECTION_EXPLICIT) ? "dedicated" : "standard");
+			connected = new Client(output, input, logger);
+		}
 
-			print_debug("Tracker process ID: %d", process->get_handle());
-			int server_version = 0;
+		stop_watchdog();
 
-			client->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
+		MUTEX_SYNCHRONIZE(process_state_mutex) {
+			client = connected;
+		}
 
-			if (server_version > TRAX_VERSION) throw std::runtime_error("Unsupported protocol version");
+		// TODO: check tracker exit state
+		if (!(*client)) {
+			print_debug("Unable to establish connection.");
+			stop_process();
+			throw std::runtime_error("Unable to establish connection.");
+		}
 
-			print_debug("Connection with tracker established.");
+		int server_version = 0;
 
-			return true;
+		client->get_parameter(TRAX_PARAMETER_VERSION, &server_version);
 
+		if (server_version > TRAX_VERSION) {
+			stop_process();
+			throw std::runtime_error("Unsupported protocol version");
 		}
 
+		print_debug("Connection with tracker established.");
+
+		return true;
+
 	}
 
 
 	bool stop_process() {
 
-		int exit_status = -1;
+		Lock lock(process_state_mutex);
 
-		stop_watchdog();
+		return terminate_process();
 
-		Lock lock(process_state_mutex);
+	}
 
-		if (client != NULL) {
-			print_debug("Trying to stop process using protocol.");
-			client->terminate();
-		}
+	// Has to be called with process state locked.
+	bool terminate_process() {
+
+		PipeSignalGuard guard;
+
+		int exit_status = -1;
+
+		watchdog_timeout = 0;
 
 		if (process) {
 
+			// The handle can only be used if no other thread is using it at the same time.
+			if (client != NULL && !calling && stream_accepts(process->get_input())) {
+				print_debug("Trying to stop process using protocol.");
+				client->terminate();
+			}
+
 			for (int i = 0; i < 5; i++) {
 				if (!process->is_alive(&exit_status)) break;
 				sleepf(0.1);
@@ -413,11 +510,19 @@ public:
 				if (process->is_alive(&exit_status)) {
 					print_debug("Escalating to brute-force termination.");
 					process->kill();
-					sleepf(0.1);
-					process->is_alive(&exit_status);
+					for (int i = 0; i < 20; i++) {
+						if (!process->is_alive(&exit_status)) break;
+						sleepf(0.1);
+					}
 				}
 			}
 
+			// The streams are in use, the rest is left to the thread that uses them.
+			if (calling) return exit_status == 0;
+
+			// The process is gone, this only closes the session.
+			if (client != NULL) client->terminate();
+
 			flush_streams();
 
 			delete process;
@@ -445,22 +550,35 @@ public:
 
 	}
 
-	void reset_watchdog(int timeout) {
+	void delete_client() {
 
-		watchdog_timeout = timeout * 10;
+		PipeSignalGuard guard;
+
+		if (client) {
+			delete client;
+			client = NULL;
+			print_debug("Deleted stale client");
+		}
 
 	}
 
+	// Marks the beginning of a call that communicates with the tracker.
 	void start_watchdog() {
 
-		reset_watchdog(timeout);
+		Lock lock(process_state_mutex);
 
-	}
+		watchdog_timeout = timeout * 10;
+		calling = true;
 
+	}
 
+	// Marks the end of the call.
 	void stop_watchdog() {
 
-		reset_watchdog(0);
+		Lock lock(process_state_mutex);
+
+		watchdog_timeout = 0;
+		calling = false;
 
 	}
 
@@ -554,26 +672,26 @@ flush_condition.wait(1000);
 
 			run = state->watchdog_active;
 
-			bool terminate = !state->process_running();
+			bool terminate = false;
 
 			for (vector<WatchdogCallback*>::iterator c = state->callbacks.begin(); c != state->callbacks.end(); c++) {
 				terminate |= (*c)();
 			}
 
-			if (terminate) {
-				state->stop_process();
-			} else {
+			MUTEX_SYNCHRONIZE(state->process_state_mutex) {
+
+				if (state->process && !state->process->is_alive()) terminate = true;
 
-				if (state->watchdog_timeout > 0) {
+				if (!terminate && state->watchdog_timeout > 0) {
 
 					state->watchdog_timeout--;
 
-					if (state->watchdog_timeout == 0) {
-						
-						state->stop_process();
-					}
+					terminate = state->watchdog_timeout == 0;
 
 				}
+
+				if (terminate) state->terminate_process();
+
 			}
 
 			state->watchdog_mutex.release();
@@ -597,17 +715,16 @@ flush_condition.wait(1000);
 
 			if (err == -1) {
 
-				if (state->process_running()) {
-
-					err = state->process->get_error();
+				MUTEX_SYNCHRONIZE(state->process_state_mutex) {
 
-				} else {
-
-					state->flush_condition.notify();
+					if (state->process && state->process->is_alive())
+						err = duplicate_stream(state->process->get_error());
 
 				}
+
 				if (err == -1) {
-					sleep(0);
+					state->flush_condition.notify();
+					sleepf(0.01);
 					continue;
 				}
 
@@ -619,7 +736,8 @@ flush_condition.wait(1000);
 
 			if (read != 1) {
 
-				if (state->process_running()) err =  -1;
+				close(err);
+				err = -1;
 				flush = true;
 
 			} else {
@@ -636,12 +754,17 @@ flush_condition.wait(1000);
 
 				}
 
-				if (err == -1) state->flush_condition.notify();
+				if (err == -1) {
+					state->flush_condition.notify();
+					sleepf(0.01);
+				}
 
 			}
 
 		}
 
+		if (err != -1) close(err);
+
 		state->print_debug("Stopping logger thread");
 
 		return 0;
@@ -705,6 +828,7 @@ flush_condition.wait(1000);
 
 	bool watchdog_active;
 	int watchdog_timeout;
+	bool calling;
 
 	bool logger_active;
 	line_buffer stdout_buffer;
@@ -727,6 +851,30 @@ flush_condition.wait(1000);
 
 };
 
+// A call that communicates with the tracker under the supervision of the watchdog.
+class TrackerProcess::Call {
+public:
+
+	Call(State* state) : state(state) {
+
+		state->start_watchdog();
+
+	}
+
+	~Call() {
+
+		state->stop_watchdog();
+
+	}
+
+private:
+
+	PipeSignalGuard guard;
+
+	State* state;
+
+};
+
 TrackerProcess::TrackerProcess(const string& command, const map<string, string> environment, int timeout,
                                ConnectionMode connection, VerbosityMode verbosity, string directory, ostream *log) {
 
@@ -755,12 +903,13 @@ bool TrackerProcess::initialize(const ImageList& image, const Region& region, co
 
 	state->tracking = false;
 
-	state->start_watchdog();
+	int result;
 
 	// Initialize the tracker ...
-	int result = state->client->initialize(image, region, properties);
-
-	state->stop_watchdog();
+	{
+		Call call(state);
+		result = state->client->initialize(image, region, properties);
+	}
 
 	state->tracking = result == TRAX_OK;
 
@@ -780,11 +929,12 @@ bool TrackerProcess::wait(Region& region, Properties& properties) {
 
 	if (!state->tracking) throw std::runtime_error("Tracker not initialized yet.");
 
-	state->start_watchdog();
-
-	int result = state->client->wait(region, properties);
+	int result;
 
-	state->stop_watchdog();
+	{
+		Call call(state);
+		result = state->client->wait(region, properties);
+	}
 
 	state->tracking = result == TRAX_STATE;
 
@@ -803,11 +953,12 @@ bool TrackerProcess::frame(const ImageList& image, const Properties& properties)
 
 	if (!state->tracking) throw std::runtime_error("Tracker not initialized yet.");
 
-	state->start_watchdog();
-
-	int result = state->client->frame(image, properties);
+	int result;
 
-	state->stop_watchdog();
+	{
+		Call call(state);
+		result = state->client->frame(image, properties);
+	}
 
 	state->tracking = result == TRAX_OK;
 
@@ -828,12 +979,13 @@ bool TrackerProcess::initialize(const ImageList& image, const ObjectList& object
 
 	state->tracking = false;
 
-	state->start_watchdog();
+	int result;
 
 	// Initialize the tracker ...
-	int result = state->client->initialize(image, objects, properties);
-
-	state->stop_watchdog();
+	{
+		Call call(state);
+		result = state->client->initialize(image, objects, properties);
+	}
 
 	state->tracking = result == TRAX_OK;
 
@@ -852,11 +1004,12 @@ bool TrackerProcess::wait(ObjectList& objects, Properties& properties) {
 
 	if (!state->tracking) throw std::runtime_error("Tracker not initialized yet.");
 
-	state->start_watchdog();
+	int result;
 
-	int result = state->client->wait(objects, properties);
-
-	state->stop_watchdog();
+	{
+		Call call(state);
+		result = state->client->wait(objects, properties);
+	}
 
 	state->tracking = result == TRAX_STATE;
 
@@ -875,11 +1028,12 @@ bool TrackerProcess::frame(const ImageList& image, const ObjectList& objects, co
 
 	if (!state->tracking) throw std::runtime_error("Tracker not initialized yet.");
 
-	state->start_watchdog();
-
-	int result = state->client->frame(image, objects, properties);
+	int result;
 
-	state->stop_watchdog();
+	{
+		Call call(state);
+		result = state->client->frame(image, objects, properties);
+	}
 
 	state->tracking = result == TRAX_OK;
 
diff --git a/support/client/include/trax/client.hpp b/support/client/include/trax/client.hpp
index 493733e..a1bfa87 100644
--- a/support/client/include/trax/client.hpp
+++ b/support/client/include/trax/client.hpp
@@ -76,6 +76,7 @@ public:
 private:
 
 	class State;
+	class Call;
 	State* state;
 
 };
-- 
2.43.0


From cc20bde6ae95402db95ccc9b6c3cc44b779a982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 31/65] fix: sockets of the client are not passed on to
 trackers

---
 src/message.c             | 3 +++
 support/client/client.cpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/message.c b/src/message.c
index 2b5aab9..af890d5 100644
--- a/src/message.c
+++ b/src/message.c
@@ -52,6 +52,7 @@ static void initialize_sockets(void) {
 
 #include <sys/socket.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include <sys/select.h>
 #include <arpa/inet.h>
 #include <netinet/tcp.h>
@@ -215,6 +216,8 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 #else
 		asock = (int) accept(server,(struct sockaddr *)&pin,
 												 (socklen_t *)&addrlen);
+		// The connection must not be passed on to any process
+		if (asock != -1) fcntl(asock, F_SETFD, FD_CLOEXEC);
 #endif
 	} else {
         return NULL;
diff --git a/support/client/client.cpp b/support/client/client.cpp
index 2bcf275..0517de8 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -96,6 +96,11 @@ int create_server_socket(int port) {
 		return -1;
 	}
 
+#if !(defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER))
+	// The socket must not be passed on to any process.
+	fcntl(sid, F_SETFD, FD_CLOEXEC);
+#endif
+
 	{
 		const int enable = 1;
 		if (setsockopt(sid, SOL_SOCKET, SO_REUSEADDR, (const char*) &enable, sizeof(int)) < 0) {
-- 
2.43.0


From 6a22b9ae2b6c64c339343caca48601b5a70d79e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 32/65] fix: a signal does not disturb the wait for a
 connection

---
 src/message.c | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/message.c b/src/message.c
index af890d5..0e1adaa 100644
--- a/src/message.c
+++ b/src/message.c
@@ -25,6 +25,7 @@
 
 #include <ctype.h>
 #include <errno.h>
+#include <time.h>
 
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
 #include <winsock2.h>
@@ -189,6 +190,12 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
     int one = 1;
     message_stream* stream = NULL;
     struct timeval tv;
+    int ready;
+#if !(defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER))
+    struct timespec start, now;
+    long remaining;
+    clock_gettime(CLOCK_MONOTONIC, &start);
+#endif
     tv.tv_sec = timeout;
     tv.tv_usec = 0;
 
@@ -199,15 +206,31 @@ message_stream* create_message_stream_socket_accept(int server, int timeout) {
 		return NULL;
 	}
 
-	FD_ZERO(&readfds);
-	FD_ZERO(&writefds);
-	FD_ZERO(&exceptfds);
-	FD_SET(server,&readfds);
-	FD_SET(server,&exceptfds);
+	while (1) {
 
-    select(server+1,&readfds,&writefds,&exceptfds,&tv);
-	
-	if(FD_ISSET(server,&readfds)) {
+		FD_ZERO(&readfds);
+		FD_ZERO(&writefds);
+		FD_ZERO(&exceptfds);
+		FD_SET(server,&readfds);
+		FD_SET(server,&exceptfds);
+
+		ready = select(server+1,&readfds,&writefds,&exceptfds,&tv);
+
+#if !(defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER))
+		// Continue if a signal arrived in the meantime, the sets are not valid in this case
+		if (ready == -1 && errno == EINTR) {
+			clock_gettime(CLOCK_MONOTONIC, &now);
+			remaining = timeout * 1000L - (now.tv_sec - start.tv_sec) * 1000L - (now.tv_nsec - start.tv_nsec) / 1000000L;
+			if (remaining < 0) remaining = 0;
+			tv.tv_sec = remaining / 1000;
+			tv.tv_usec = (remaining % 1000) * 1000;
+			continue;
+		}
+#endif
+		break;
+	}
+
+	if(ready > 0 && FD_ISSET(server,&readfds)) {
 		struct sockaddr_in pin;
 		int addrlen = sizeof(struct sockaddr_in);
 #if defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER) 
-- 
2.43.0


From 5a73a3cb00be16c6cda527f9fce588845eac9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 33/65] fix: a connection of the previous tracker is not taken
 for the one of the next tracker

---
 support/client/client.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 0517de8..c530d27 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -238,6 +238,23 @@ static int duplicate_stream(int fd) {
 
 }
 
+// Gives up connections that nobody has waited for.
+static void drain_server_socket(int server) {
+
+#if !(defined(__OS2__) || defined(__WINDOWS__) || defined(WIN32) || defined(WIN64) || defined(_MSC_VER))
+	struct pollfd descriptor;
+	descriptor.fd = server;
+	descriptor.events = POLLIN;
+
+	while (poll(&descriptor, 1, 0) > 0) {
+		int connection = accept(server, NULL, NULL);
+		if (connection < 0) break;
+		close(connection);
+	}
+#endif
+
+}
+
 // Can a short message be written to the stream without waiting for the other side?
 static bool stream_accepts(int fd) {
 
@@ -398,6 +415,8 @@ public:
 				char port_buffer[24];
 				sprintf(port_buffer, "%d", socket_port);
 				process->set_environment("TRAX_SOCKET", port_buffer);
+				// The previous process may have connected after all.
+				drain_server_socket(socket_id);
 			}
 
 			reset_logger();
-- 
2.43.0


From cef56a77fa47e70ba518b744ccd2bc6c8e2b8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 34/65] fix: streams of a starting tracker are in use before
 the session is set up

---
 support/client/client.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index c530d27..7958b47 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -428,6 +428,9 @@ public:
 				input = process->get_input();
 				output = process->get_output();
 				print_debug("Tracker process ID: %d", process->get_handle());
+				// From now on the streams are in use.
+				watchdog_timeout = timeout * 10;
+				calling = true;
 			} else {
 				delete process;
 				process = NULL;
@@ -443,12 +446,11 @@ public:
 		sleepf(0.1);
 		if (!process_running()) {
 			print_debug("Unable to start process");
+			stop_watchdog();
 			stop_process();
 			throw std::runtime_error("Unable to start the tracker process");
 		}
 
-		start_watchdog();
-
 		Logging logger = trax_no_log;
 
 		if (verbosity != VERBOSITY_SILENT)
-- 
2.43.0


From e5315a5870db1206d49230554b86fb7b15f88383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 35/65] fix: the last line of an image list does not have to be
 terminated

---
 support/client/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index d47e39c..4cd6e0d 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -311,8 +311,8 @@ void read_images(const string& file, vector<vector<string> >& list) {
     while (true) {
         string line;
         vector<string> images;
-        getline(input, line);
-        if (!input.good()) break;
+        // The last line does not have to be terminated.
+        if (!getline(input, line)) break;
 
         size_t pos = 0;
         std::string token;
-- 
2.43.0


From 8ac1f3c17522c6348acef8d271af326975e3fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 36/65] fix: initialization data may cover less frames than the
 sequence

---
 support/client/cli.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 4cd6e0d..8e68ac1 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -612,6 +612,10 @@ int main( int argc, char** argv) {
                 initialization = vector<Region>(groundtruth.begin(), groundtruth.end());
             }
 
+            // There is no initialization data for frames that are not listed.
+            if (initialization.size() < images.size())
+                initialization.resize(images.size());
+
             print_debug("Sequence length: %d frames.\n", (int) images.size());
 
             TrackerProcess tracker(tracker_command, environment, timeout, connection, verbosity);
-- 
2.43.0


From f3f7cd1191e7679e1b9e2151780b42d676319eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 37/65] fix: skipped frames have a timing entry

---
 support/client/cli.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 8e68ac1..a3aa60c 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -631,6 +631,7 @@ int main( int argc, char** argv) {
                     if (!initialization[frame].empty()) break;
                     print_debug("Skipping frame %d, no initialization data. \n", (int) frame);
                     output.push_back(Region::create_special(0));
+                    timings.push_back(0);
                 }
 
                 if (frame == images.size()) break;
-- 
2.43.0


From c6960744853594baeb6733e5fe53df4866756aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 38/65] fix: evaluation client loads the images of the channels
 of the tracker

---
 support/client/cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index a3aa60c..15fbc95 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -645,7 +645,7 @@ int main( int argc, char** argv) {
                 Metadata metadata = tracker.metadata();
 
                 Region initialize = initialization[frame];
-                ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                 // Start timing a frame
                 double timing_elapsed;
@@ -715,7 +715,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.image_formats(), metadata.channels());
+                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0


From 46c1c35eca1fe4ee59d380bc781b8276cedceaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 39/65] fix: image size of buffer images in the evaluation
 client

---
 src/trax.c             | 10 +++++-----
 support/client/cli.cpp |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index 5339c9c..066ca1e 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -1638,9 +1638,9 @@ void trax_image_get_memory_header(const trax_image* image, int* width, int* heig
 
     assert(image->type == TRAX_IMAGE_MEMORY);
 
-    *width = image->width;
-    *height = image->height;
-    *format = image->format;
+    if (width) *width = image->width;
+    if (height) *height = image->height;
+    if (format) *format = image->format;
 
 }
 
@@ -1680,8 +1680,8 @@ const char* trax_image_get_buffer(const trax_image* image, int* length, int* for
 
     assert(image->type == TRAX_IMAGE_BUFFER);
 
-    *length = image->width;
-    *format = image->format;
+    if (length) *length = image->width;
+    if (format) *format = image->format;
 
     return image->data;
 
diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 15fbc95..221761e 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -192,8 +192,8 @@ typedef struct image_size {
 image_size image_get_size(Image image) {
 
     int len;
-    image_size result;
-    unsigned char buf[24];
+    image_size result = { -1, -1 };
+    unsigned char buf[24] = { 0 };
 
     if (image.type() == TRAX_IMAGE_MEMORY) {
 
-- 
2.43.0


From 4546b89c1a908703610b94c3dfb9117d9fce86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:30 +0000
Subject: [PATCH 40/65] fix: a message that could not be written was reported
 as sent

---
 src/message.c | 19 +++++++++++++++----
 src/message.h |  2 +-
 src/trax.c    | 45 ++++++++++++++++++++++++++++++++++++---------
 3 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/message.c b/src/message.c
index 0e1adaa..74264b8 100644
--- a/src/message.c
+++ b/src/message.c
@@ -727,10 +727,12 @@ int write_buffer_escaped(message_stream* stream, const char* buf, int len, trax_
 typedef struct file_pair {
     message_stream* stream;
     trax_logging* log;
+    int status;
 } file_pair;
 
-#define OUTPUT_STRING(S) { int len = strlen(S); write_buffer(stream, S, len, log); }
-#define OUTPUT_ESCAPED(S) { int len = strlen(S); write_buffer_escaped(stream, S, len, log); }
+// Once something could not be written the rest of the message is left out.
+#define OUTPUT_STRING(S) { int len = strlen(S); if (status == 1) status = write_buffer(stream, S, len, log); }
+#define OUTPUT_ESCAPED(S) { int len = strlen(S); if (status == 1) status = write_buffer_escaped(stream, S, len, log); }
 /*#define OUTPUT_ESCAPED(S) { int i = 0; while (1) { \
     if (!S[i]) break; \
     if (S[i] == '"' || S[i] == '\\') { write_string(stream, "\\", 1); LOG_STR(log, "\\"); } \
@@ -741,6 +743,7 @@ void __output_properties(const char *key, const char *value, const void *obj) {
     
     message_stream* stream = ((file_pair *) obj)->stream;
     trax_logging* log = ((file_pair *) obj)->log;
+    int status = ((file_pair *) obj)->status;
 
     OUTPUT_STRING("\"");
     OUTPUT_STRING(key);
@@ -748,11 +751,14 @@ void __output_properties(const char *key, const char *value, const void *obj) {
     OUTPUT_ESCAPED(value);
     OUTPUT_STRING("\" ");
 
+    ((file_pair *) obj)->status = status;
+
 }
 
-void write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties) {
+int write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties) {
 
     int i;
+    int status = 1;
 
     assert(type >= TRAX_HELLO);
 
@@ -780,7 +786,7 @@ void write_message(message_stream* stream, trax_logging* log, int type, const st
             OUTPUT_STRING("quit");
             break;
         default: {
-            return;
+            return -1;
         }
     }
 
@@ -800,13 +806,18 @@ void write_message(message_stream* stream, trax_logging* log, int type, const st
         file_pair pair;
         pair.stream = stream;
         pair.log = log;
+        pair.status = status;
 
         trax_properties_enumerate(properties, __output_properties, &pair);
 
+        status = pair.status;
+
     }
 
     OUTPUT_STRING("\n");
     LOG_BUFFER(log, NULL, 0); // Flush the log stream
 
+    return status;
+
 }
 
diff --git a/src/message.h b/src/message.h
index 412c00a..a04c941 100644
--- a/src/message.h
+++ b/src/message.h
@@ -62,7 +62,7 @@ void destroy_message_stream(message_stream** stream);
 
 int read_message(message_stream* stream, trax_logging* log, string_list* arguments, trax_properties* properties);
 	
-void write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties);
+int write_message(message_stream* stream, trax_logging* log, int type, const string_list* arguments, trax_properties* properties);
 
 #define LOG_STRING(L, S) { if ((L) && (L)->callback ) { (L)->callback(S, strlen(S), (L)->data); } }
 #define LOG_BUFFER(L, S, N) { if ((L) && (L)->callback ) { (L)->callback(S, N, (L)->data); } }
diff --git a/src/trax.c b/src/trax.c
index 066ca1e..e177367 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -933,7 +933,7 @@ static string_list* client_encode_objects(trax_handle* client, trax_object_list*
 int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
     string_list *arguments, *regions;
-    int n;
+    int n, sent;
 
     VALIDATE_CLIENT_HANDLE(client);
 
@@ -972,7 +972,10 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
 
         if (client->objects > 0) {
             // Reset object count with an empty initialize message
-            write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL);
+            if (write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, NULL, NULL) != 1) {
+                set_error(client, "Unable to send the message");
+                return TRAX_ERROR;
+            }
             client->objects = 0;
         }
         return trax_client_frame(client, images, objects, properties);
@@ -984,20 +987,25 @@ int trax_client_initialize(trax_handle* client, trax_image_list* images, trax_ob
 
     list_append(arguments, regions->buffer[0]);
 
-    write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, properties);
+    sent = write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, properties);
 
     list_destroy(&arguments);
     list_destroy(&regions);
 
     client->objects = 1;
 
+    if (sent != 1) {
+        set_error(client, "Unable to send the message");
+        return TRAX_ERROR;
+    }
+
     return TRAX_OK;
 
 }
 
 int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_list* objects, trax_properties* properties) {
 
-    int i, n;
+    int i, n, sent = 1;
     string_list *images_arguments, *regions;
 
     VALIDATE_CLIENT_HANDLE(client);
@@ -1046,18 +1054,25 @@ int trax_client_frame(trax_handle* client, trax_image_list* images, trax_object_
 
         list_append(arguments, regions->buffer[i]);
 
-        write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i));
+        if (sent == 1)
+            sent = write_message((message_stream*)client->stream, &LOGGER(client), TRAX_INITIALIZE, arguments, trax_object_list_properties(objects, i));
 
         list_destroy(&arguments);
     }
 
     client->objects += n;
 
-    write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, images_arguments, properties);
+    if (sent == 1)
+        sent = write_message((message_stream*)client->stream, &LOGGER(client), TRAX_FRAME, images_arguments, properties);
 
     list_destroy(&images_arguments);
     list_destroy(&regions);
 
+    if (sent != 1) {
+        set_error(client, "Unable to send the message");
+        return TRAX_ERROR;
+    }
+
     return TRAX_OK;
 
 }
@@ -1337,6 +1352,7 @@ int trax_server_wait_mot(trax_handle* server, trax_image_list** images, trax_obj
 
 int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_properties* properties) {
 
+    int sent;
     char* data;
     string_list* arguments;
 
@@ -1365,17 +1381,22 @@ int trax_server_reply_sot(trax_handle* server, trax_region* region, trax_propert
 
     list_append_direct(arguments, data);
 
-    write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, properties);
+    sent = write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, properties);
 
     list_destroy(&arguments);
 
+    if (sent != 1) {
+        set_error(server, "Unable to send the message");
+        return TRAX_ERROR;
+    }
+
     return TRAX_OK;
 
 }
 
 int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
 
-    int n, i;
+    int n, i, sent = 1;
     string_list *arguments, *regions;
 
     VALIDATE_SERVER_HANDLE(server);
@@ -1417,12 +1438,18 @@ int trax_server_reply_mot(trax_handle* server, trax_object_list* objects) {
     for (i = 0; i < n; i++) {
         arguments = list_create(1);
         list_append(arguments, regions->buffer[i]);
-        write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i));
+        if (sent == 1)
+            sent = write_message((message_stream*)server->stream, &LOGGER(server), TRAX_STATE, arguments, trax_object_list_properties(objects, i));
         list_destroy(&arguments);
     }
 
     list_destroy(&regions);
 
+    if (sent != 1) {
+        set_error(server, "Unable to send the message");
+        return TRAX_ERROR;
+    }
+
     return TRAX_OK;
 }
 
-- 
2.43.0


From 3c5af0f130bc80be233eee50af6334595275705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:30 +0000
Subject: [PATCH 41/65] fix: Python: PNG and JPEG buffers were named after each
 other

---
 support/python/trax/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/image.py b/support/python/trax/image.py
index 375c46b..cfa7979 100644
--- a/support/python/trax/image.py
+++ b/support/python/trax/image.py
@@ -314,8 +314,8 @@ class MemoryImage(Image):
             raise TraxException("NumPy is not installed")
 
 
-IMAGE_BUFFER_JPEG = 1
-IMAGE_BUFFER_PNG = 2
+IMAGE_BUFFER_PNG = 1
+IMAGE_BUFFER_JPEG = 2
 
 _image_buffer_map_string = {IMAGE_BUFFER_JPEG : "jpeg", IMAGE_BUFFER_PNG: "png"}
 
-- 
2.43.0


From aec1c7494cf7dddf4dddcb31a54c03d1934c0a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:30 +0000
Subject: [PATCH 42/65] fix: Python: masks from arrays that are not contiguous

---
 support/python/trax/region.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/python/trax/region.py b/support/python/trax/region.py
index 230dc2a..ae77783 100644
--- a/support/python/trax/region.py
+++ b/support/python/trax/region.py
@@ -344,6 +344,8 @@ class Mask(Region):
         """
         assert(len(source.shape) == 2 and source.dtype == np.uint8)
 
+        source = np.ascontiguousarray(source)
+
         mask = cast(trax_region_create_mask(x, y, source.shape[1], source.shape[0]), c_void_p)
 
         data = trax_region_write_mask_row(mask, 0)
-- 
2.43.0


From d9a3b5109fd969b43cc1f088376d4f10cad82a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 43/65] fix: Python: a client without a log could not be
 created

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 6251107..16731ed 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -45,7 +45,7 @@ class Client(object):
         else:
             self._logger = None
 
-        self._clogger = trax_logger(self._logger) if not self._logger is None else None
+        self._clogger = trax_logger(self._logger) if not self._logger is None else trax_logger()
 
         logger = trax_logger_setup(self._clogger, 0, 0)
 
-- 
2.43.0


From 2316249a7456506c8f942622251c6457d95cad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 44/65] fix: Python: frames without new objects

---
 support/python/trax/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 16731ed..84be59e 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -233,7 +233,7 @@ class Client(object):
         """
 
         timage = wrap_images(images)
-        tobjects = wrap_objects(objects)
+        tobjects = wrap_objects(objects if not objects is None else [])
         tproperties = Properties(properties)
 
         status = TraxStatus.decode(trax_client_frame(self._handle.reference, timage.reference, tobjects.reference, tproperties.reference))
-- 
2.43.0


From 0c2c98fb7fc27eb41ef45c363c3d23c04510783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 45/65] fix: Python: the log callback was released before the
 handle that logs its end

---
 support/python/trax/__init__.py | 5 +++--
 support/python/trax/client.py   | 2 +-
 support/python/trax/server.py   | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 20beec5..0e0ee38 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -296,14 +296,15 @@ class PropertiesWrapper(Wrapper):
 class HandleWrapper(Wrapper):
     """ Wrapper for trax_handle_t structure."""
 
-    def __init__(self, reference, owner=True):
+    def __init__(self, reference, owner=True, logger=None):
         """ Initialize wrapper with reference to trax_handle_t structure.
         
         Args:
             reference (c_void_p): reference to trax_handle_t structure
             owner (bool): whether to take ownership of the structure
+            logger (trax_logger): callback of the handle, kept until the handle is released since that may still log
         """
-        super().__init__(POINTER(struct_trax_handle), reference, lambda x: trax_cleanup(byref(x)) if owner else None)
+        super().__init__(POINTER(struct_trax_handle), reference, lambda x, _=logger: trax_cleanup(byref(x)) if owner else None)
 
 def wrap_image_list(list):
     """ Wrap image list internal C structure into a dictionary of images.
diff --git a/support/python/trax/client.py b/support/python/trax/client.py
index 84be59e..e39040d 100644
--- a/support/python/trax/client.py
+++ b/support/python/trax/client.py
@@ -79,7 +79,7 @@ class Client(object):
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when connecting to tracker: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
+        self._handle = HandleWrapper(handle, logger=self._clogger)
 
         metadata = self._handle.reference.contents.metadata
 
diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index b969e5d..d5e943f 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -83,7 +83,7 @@ class Server(object):
             message = message.decode('utf-8') if not message is None else "Unknown"
             raise TraxException("Exception when setting up: {}".format(message))
 
-        self._handle = HandleWrapper(handle)
+        self._handle = HandleWrapper(handle, logger=self._logger)
 
     def wait(self):
         """ Wait for client message request. Recognize it and parse them when received .
-- 
2.43.0


From 211ed9a809851c36aca40e9963164361fedeff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 46/65] fix: Python: properties of a reply were not sent

---
 support/python/trax/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index d5e943f..510be91 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -20,7 +20,8 @@ from ._ctypes import \
         trax_server_wait, trax_server_reply, \
         trax_image_list_release,  \
         trax_logger, trax_terminate, \
-        trax_is_alive, trax_get_error, trax_object_list_release
+        trax_is_alive, trax_get_error, trax_object_list_release, \
+        trax_object_list_properties, trax_properties_append
 
 
 class Request(collections.namedtuple('Request', ['type', 'image', 'objects', 'properties'])):
@@ -136,7 +137,10 @@ class Server(object):
         assert(isinstance(objects, list))
         tproperties = Properties(properties)
         tobjects = wrap_objects(objects)
-        status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference, tproperties.reference))
+        if objects:
+            # A reply has no properties of its own, they travel with the first object
+            trax_properties_append(tproperties.reference, trax_object_list_properties(tobjects.reference, 0), 0)
+        status = TraxStatus.decode(trax_server_reply(self._handle.reference, tobjects.reference))
 
         if status == TraxStatus.ERROR:
             message = trax_get_error(self._handle.reference)
-- 
2.43.0


From de6b704848ed4ddee3c5c240e7735600d68890b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 47/65] fix: Python: leaving a server that has quit failed

---
 support/python/trax/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/python/trax/server.py b/support/python/trax/server.py
index 510be91..6efd9c4 100644
--- a/support/python/trax/server.py
+++ b/support/python/trax/server.py
@@ -165,6 +165,9 @@ class Server(object):
         """ Sends quit message and end terminates communication. """
         from . import TraxException, TraxStatus
 
+        if self._handle is None:
+            return
+
         if not reason is None:
             status = TraxStatus.decode(trax_terminate(self._handle.reference, reason.encode('utf-8')))
         else:
-- 
2.43.0


From bd9ca605ae002053bedee9c6e6d0b8fea55e8534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:41 +0000
Subject: [PATCH 48/65] fix: Python: log messages are not terminated and may
 end within a character

---
 support/python/trax/__init__.py | 12 ++++++++----
 support/python/trax/_ctypes.py  |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 0e0ee38..417e67c 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -6,10 +6,11 @@ __all__ = \
     'MemoryImage', 'BufferImage', 'Region', 'Image', 'Polygon',
     'Rectangle', 'Special', 'Mask', 'TraxStatus', 'Properties']
 
+import codecs
 import os
 import traceback
 import weakref
-from ctypes import py_object, c_void_p, cast, byref, POINTER
+from ctypes import py_object, c_void_p, cast, byref, string_at, POINTER
 
 from ._ctypes import \
     trax_properties_create, \
@@ -70,12 +71,14 @@ class Logger(object):
     def __init__(self):
         """ Initialize logger"""
         self._interrupted = False
+        # A character may be split between calls
+        self._decoder = codecs.getincrementaldecoder("utf-8")("replace")
 
     def __call__(self, buffer, length, _):
         """ Call logger with buffer and length, this method is called from C code, handles buffer decoding and calls handle() method. It also handles KeyboardInterrupt exception.
         
         Args:
-            buffer (bytes): buffer to decode
+            buffer (int): address of the buffer to decode, it is not terminated
             length (int): length of the buffer
             _ (ctypes.c_void_p): unused
             
@@ -83,8 +86,9 @@ class Logger(object):
         try:
             if not buffer:
                 return
-            message = buffer[:length].decode("utf-8")
-            self.handle(message)
+            message = self._decoder.decode(string_at(buffer, length))
+            if message:
+                self.handle(message)
         except KeyboardInterrupt:
             self._interrupted = True
 
diff --git a/support/python/trax/_ctypes.py b/support/python/trax/_ctypes.py
index a4e12e0..6b1bf1d 100644
--- a/support/python/trax/_ctypes.py
+++ b/support/python/trax/_ctypes.py
@@ -600,7 +600,7 @@ struct_trax_bounds._fields_ = [
 
 trax_bounds = struct_trax_bounds# /home/lukacu/Checkouts/vot/trax/include/trax.h: 168
 
-trax_logger = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_int32, ctypes.c_void_p)
+trax_logger = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_int32, ctypes.c_void_p)
 trax_enumerator = ctypes.CFUNCTYPE(None, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_void_p)
 
 # /home/lukacu/Checkouts/vot/trax/include/trax.h: 181
-- 
2.43.0


From 5ffb663bfc837353cf937d5e6e1cb188327b6628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 49/65] fix: Python: log file in the current directory

---
 support/python/trax/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index 417e67c..e5c23e9 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -126,7 +126,7 @@ class FileLogger(Logger):
             filename (str): name of the file to write messages to
         """
         super().__init__()
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         self._fp = open(filename, "w")
 
     def handle(self, message: str):
-- 
2.43.0


From 1723c132a6f92822e0b1a5f8559fcedb69137670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 50/65] fix: Python: reading a single property failed

---
 support/python/trax/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/python/trax/__init__.py b/support/python/trax/__init__.py
index e5c23e9..6b5b0ab 100644
--- a/support/python/trax/__init__.py
+++ b/support/python/trax/__init__.py
@@ -428,7 +428,7 @@ class Properties(object):
         Args:
             key (str): property key
         """
-        return trax_properties_get(self._ref.reference, key)
+        return self.get(key)
 
     def __setitem__(self, key: str, value: str):
         """ Set a property value.
-- 
2.43.0


From abe5698f05801a2ea04bc70e3fb226d4dbf0b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 51/65] fix: Matlab: quit without a reason reads past the
 arguments

The documented response is returned as well.
---
 support/matlab/traxserver.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 471b5ff..e4b64a8 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -190,15 +190,19 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
     } else if (operation == "quit") {
 
-        if (!handle)
-            return;
+        if ( nlhs > 1 ) { MEX_ERROR("At most one output argument supported."); return; }
 
         std::string reason;
 
-        if (nrhs > 2)
-            MEX_ERROR("Only one optional string argument allowed.");
-        else
-            reason = get_string(prhs[1]);
+        if ( nrhs > 2 ) { MEX_ERROR("Only one optional string argument allowed."); return; }
+
+        if ( nrhs == 2 ) reason = get_string(prhs[1]);
+
+        if (nlhs == 1)
+            plhs[0] = mxCreateLogicalScalar(handle != NULL);
+
+        if (!handle)
+            return;
 
         if (handle->terminate(reason) == TRAX_ERROR) {
             std::string tmp("Unable to terminate protocol: " + handle->get_error());
-- 
2.43.0


From eec5543f15b9b4ccc74b7d97227399c9498fbd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 52/65] fix: Matlab: documented operation state is unknown

---
 support/matlab/traxserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index e4b64a8..1e20675 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -164,7 +164,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         }
 
-    } else if (operation == "status") {
+    } else if (operation == "status" || operation == "state") {
 
         if (!handle) { MEX_ERROR("Protocol not initialized."); return; }
 
-- 
2.43.0


From 0d9aecb4ae1a8399089bf8b2a2b01d534214e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 53/65] fix: Matlab: named argument without a value reads past
 the arguments

---
 support/matlab/traxclient.cpp | 3 ++-
 support/matlab/traxserver.cpp | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index d10a6d6..4c1ab68 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -348,7 +348,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
 	if ( nrhs > 1 ) {
 
-		for (int i = 2; i < std::floor((float)nrhs / 2) * 2; i += 2) {
+		for (int i = 2; i < nrhs; i += 2) {
+			if (i + 1 == nrhs) { MEX_ERROR("Argument value missing."); return; }
 			switch (get_argument_code(get_string(prhs[i]))) {
 			case ARGUMENT_DEBUG: verbosity = (mxGetScalar(prhs[i + 1]) != 0) ? VERBOSITY_DEBUG : VERBOSITY_DEFAULT; break;
 			case ARGUMENT_TIMEOUT: timeout = (int) mxGetScalar(prhs[i + 1]); break;
diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 1e20675..5567ff9 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -54,7 +54,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if ( nrhs > 3 ) {
 
-            for (int i = 3; i < std::floor((float)nrhs/2) * 2; i+=2) {
+            for (int i = 3; i < nrhs; i+=2) {
+                if (i + 1 == nrhs) { MEX_ERROR("Argument value missing."); return; }
                 string key = get_string(prhs[i]);
                 switch (get_argument_code(key)) {
                 case ARGUMENT_TRACKERNAME: tracker_name = get_string(prhs[i+1]); break;
@@ -118,7 +119,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 
         if ( nrhs > 1 ) {
 
-			for (int i = 1; i < std::floor((float)nrhs/2) * 2; i+=2) {
+			for (int i = 1; i < nrhs; i+=2) {
+				if (i + 1 == nrhs) { MEX_ERROR("Argument value missing."); return; }
 				switch (get_argument_code(get_string(prhs[i]))) {
 				case ARGUMENT_PROPSTRUCT: propstruct = mxGetScalar(prhs[i+1]) > 0; break;
 				default:
-- 
2.43.0


From 7885788461f4eb8d85bc080ca8d46ca9ab425c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 54/65] fix: Matlab: empty strings are refused and other values
 are read as text

---
 support/matlab/helpers.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 37e4803..3e516de 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -16,11 +16,14 @@ bool is_property_name(const std::string &str) {
 
 string get_string(const mxArray *arg) {
 
-    if (mxGetM(arg) != 1) {
+    if (!arg || !mxIsChar(arg) || (mxGetM(arg) != 1 && mxGetNumberOfElements(arg) != 0)) {
         MEX_ERROR("Must be a string");
         return string();
     }
 
+    if (mxGetNumberOfElements(arg) == 0)
+        return string();
+
     int l = (int) mxGetN(arg);
 
     char* cstr = (char *) malloc(sizeof(char) * (l + 1));
-- 
2.43.0


From 0a0956a30a222b9d2c608666e706929dba3befdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 55/65] fix: Matlab: documented N x 2 cells of parameters are
 refused, other shapes are read past their end

---
 support/matlab/helpers.cpp | 44 ++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 3e516de..b4a9819 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -43,6 +43,18 @@ mxArray* set_string(const char* str) {
 
 }
 
+void set_parameter(Properties& prop, const string& key, const mxArray* value) {
+
+    if (value && mxIsChar(value)) {
+        prop.set(key, get_string(value));
+    } else if (value && (mxIsNumeric(value) || mxIsLogical(value)) && mxGetNumberOfElements(value) == 1) {
+        prop.set(key, (float) mxGetScalar(value));
+    } else {
+        MEX_ERROR("Parameter values can only be strings or numbers.");
+    }
+
+}
+
 Properties struct_to_parameters(const mxArray * input) {
 
     if (!mxIsStruct(input)) {
@@ -50,20 +62,18 @@ Properties struct_to_parameters(const mxArray * input) {
         return Properties();
     }
 
+    if (mxGetNumberOfElements(input) != 1) {
+        MEX_ERROR("Parameter has to be a single structure.");
+        return Properties();
+    }
+
     Properties prop;
 
     for (int i = 0; i < mxGetNumberOfFields(input); i++) {
 
         const char* name = mxGetFieldNameByNumber(input, i);
 
-        mxArray * value = mxGetFieldByNumber(input, 0, i);
-
-        if (mxIsChar(value)) {
-            string s = get_string(value);
-            prop.set(name, s.c_str());
-        } else {
-            prop.set(name, (float) mxGetScalar(value));
-        }
+        set_parameter(prop, name, mxGetFieldByNumber(input, 0, i));
     }
 
     return prop;
@@ -76,28 +86,20 @@ Properties cell_to_parameters(const mxArray * input) {
         return Properties();
     }
 
-    int length = mxGetM(input);
-    int n = mxGetN(input);
+    int length = mxIsEmpty(input) ? 0 : mxGetM(input);
 
-    if ( min(mxGetM(input), mxGetN(input)) != 1 ) {
-        MEX_ERROR("Array must be a vector");
+    if (length > 0 && (mxGetNumberOfDimensions(input) != 2 || mxGetN(input) != 2)) {
+        MEX_ERROR("Array must have two columns");
+        return Properties();
     }
 
-
     Properties prop;
 
     for (int i = 0; i < length; i++) {
         mxArray* key = mxGetCell(input, i);
         mxArray* value = mxGetCell(input, i + length);
 
-        string skey = get_string(key);
-
-        if (mxIsChar(value)) {
-            string s = get_string(value);
-            prop.set(skey.c_str(), s.c_str());
-        } else {
-            prop.set(skey.c_str(), (float) mxGetScalar(value));
-        }
+        set_parameter(prop, get_string(key), value);
 
     }
 
-- 
2.43.0


From d15fd8d2f44926b6c29f5da3ebc172a537cf8987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 56/65] fix: Matlab: mask with negative offset is written
 outside of the matrix

---
 support/matlab/helpers.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index b4a9819..507b340 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -295,9 +295,10 @@ mxArray* region_to_array(const Region& region) {
         int x, y, width, height;
         region.get_mask_header(&x, &y, &width, &height);
         mwSize dims[2];
-        dims[0] = height + y;
-        dims[1] = width + x;
-        
+        // What lies left of or above the image corner can not be represented
+        dims[0] = max(height + y, 0);
+        dims[1] = max(width + x, 0);
+
         val = mxCreateNumericArray(2, dims, mxUINT8_CLASS, mxREAL);
         char *data = (char*) mxGetPr(val);
         memset(data, 0, dims[0] * dims[1]);
@@ -305,7 +306,8 @@ mxArray* region_to_array(const Region& region) {
         for (int i = 0; i < height; i++) {
             const char *row = region.get_mask_row(i);
             for (int j = 0; j < width; j++) {
-                *(data + (j + x) * (height + y) + y + i) = row[j];          
+                if (i + y < 0 || j + x < 0) continue;
+                *(data + (j + x) * dims[0] + y + i) = row[j];
             }
         }
 
-- 
2.43.0


From f59a55f3bfd7b7f840268a5686d2c16c3f28b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 57/65] fix: Matlab: matrices that are no regions are accepted
 as regions

---
 support/matlab/helpers.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 507b340..2ff7c27 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -218,9 +218,13 @@ Region array_to_region(const mxArray* input) {
     Region p;
     int l = mxGetN(input);
 
+    if (mxIsEmpty(input) || mxGetNumberOfDimensions(input) != 2) {
+        MEX_ERROR("Illegal region format.");
+        return p;
+    }
+
     if (mxIsUint8(input)) {
 
-        int i = 0;
         int width = l;
         int height = mxGetM(input);
         char *r = (char*)mxGetPr(input);
@@ -235,7 +239,7 @@ Region array_to_region(const mxArray* input) {
         }
 
         return p;
-    } else if (mxGetClassID(input) == mxDOUBLE_CLASS) {
+    } else if (mxGetClassID(input) == mxDOUBLE_CLASS && mxGetM(input) == 1) {
         double *r = (double*)mxGetPr(input);
 
         if (l % 2 == 0 && l >= 6) {
@@ -258,6 +262,8 @@ Region array_to_region(const mxArray* input) {
 
     MEX_ERROR("Illegal region format.");
 
+    return p;
+
 }
 
 mxArray* region_to_array(const Region& region) {
-- 
2.43.0


From 283615466e2c9eb412995a8164b9a74c04e51a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 58/65] fix: Matlab: image with an URL ends the process

---
 support/matlab/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 2ff7c27..fe286d1 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -336,7 +336,7 @@ mxArray* image_to_array(const Image& img) {
         break;
     }
     case TRAX_IMAGE_URL: {
-        std::string s = img.get_path();
+        std::string s = img.get_url();
         const char* cp = s.c_str();
         val = mxCreateCharMatrixFromStrings(1, &cp);
         break;
-- 
2.43.0


From 1959ff1e0e56c2dfa9c60c46029dee0a81500206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 59/65] fix: Matlab: named arguments with empty values are read
 past their end

---
 support/matlab/helpers.cpp    | 11 +++++++++++
 support/matlab/helpers.h      |  2 ++
 support/matlab/traxclient.cpp | 12 +++++++++---
 support/matlab/traxserver.cpp |  2 +-
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index fe286d1..86e2713 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -37,6 +37,17 @@ string get_string(const mxArray *arg) {
     return str;
 }
 
+double get_number(const mxArray *arg) {
+
+    if (!(mxIsNumeric(arg) || mxIsLogical(arg)) || mxGetNumberOfElements(arg) != 1) {
+        MEX_ERROR("Must be a number");
+        return 0;
+    }
+
+    return mxGetScalar(arg);
+
+}
+
 mxArray* set_string(const char* str) {
 
     return mxCreateString(str);
diff --git a/support/matlab/helpers.h b/support/matlab/helpers.h
index 7a160d4..6d9b20f 100644
--- a/support/matlab/helpers.h
+++ b/support/matlab/helpers.h
@@ -41,6 +41,8 @@ bool is_property_name(const std::string &str);
 
 string get_string(const mxArray *arg);
 
+double get_number(const mxArray *arg);
+
 mxArray* set_string(const char* str);
 
 Properties struct_to_parameters(const mxArray * input);
diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index 4c1ab68..929cc2b 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -231,6 +231,12 @@ void struct_to_env(const mxArray * input, map<string, string>& env) {
 
 	if (!mxIsStruct(input)) {
 		MEX_ERROR("Parameter has to be a structure.");
+		return;
+	}
+
+	if (mxGetNumberOfElements(input) != 1) {
+		MEX_ERROR("Parameter has to be a single structure.");
+		return;
 	}
 
 	for (int i = 0; i < mxGetNumberOfFields(input); i++) {
@@ -238,7 +244,7 @@ void struct_to_env(const mxArray * input, map<string, string>& env) {
 		const char* name = mxGetFieldNameByNumber(input, i);
 		mxArray * value = mxGetFieldByNumber(input, 0, i);
 
-		if (mxIsChar(value)) {
+		if (value && mxIsChar(value)) {
 			string s = get_string(value);
 			env[name] = s;
 		} else MEX_ERROR("Environment values can only be strings.");
@@ -351,8 +357,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 		for (int i = 2; i < nrhs; i += 2) {
 			if (i + 1 == nrhs) { MEX_ERROR("Argument value missing."); return; }
 			switch (get_argument_code(get_string(prhs[i]))) {
-			case ARGUMENT_DEBUG: verbosity = (mxGetScalar(prhs[i + 1]) != 0) ? VERBOSITY_DEBUG : VERBOSITY_DEFAULT; break;
-			case ARGUMENT_TIMEOUT: timeout = (int) mxGetScalar(prhs[i + 1]); break;
+			case ARGUMENT_DEBUG: verbosity = (get_number(prhs[i + 1]) != 0) ? VERBOSITY_DEBUG : VERBOSITY_DEFAULT; break;
+			case ARGUMENT_TIMEOUT: timeout = (int) get_number(prhs[i + 1]); break;
 			case ARGUMENT_CONNECTION: connection = get_connection_mode(get_string(prhs[i + 1])); break;
 			case ARGUMENT_ENVIRONMENT: struct_to_env(prhs[i + 1], environment); break;
 			case ARGUMENT_STATEOBJECT: data = mxDuplicateArray(prhs[i + 1]); break;
diff --git a/support/matlab/traxserver.cpp b/support/matlab/traxserver.cpp
index 5567ff9..3592555 100644
--- a/support/matlab/traxserver.cpp
+++ b/support/matlab/traxserver.cpp
@@ -122,7 +122,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 			for (int i = 1; i < nrhs; i+=2) {
 				if (i + 1 == nrhs) { MEX_ERROR("Argument value missing."); return; }
 				switch (get_argument_code(get_string(prhs[i]))) {
-				case ARGUMENT_PROPSTRUCT: propstruct = mxGetScalar(prhs[i+1]) > 0; break;
+				case ARGUMENT_PROPSTRUCT: propstruct = get_number(prhs[i+1]) > 0; break;
 				default:
 					MEX_ERROR("Illegal argument.");
 					return;
-- 
2.43.0


From 8738be0483ae58de951ba6a36a9e134bad74821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 60/65] fix: Matlab: list with an empty image ends the process

---
 support/matlab/helpers.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/support/matlab/helpers.cpp b/support/matlab/helpers.cpp
index 86e2713..326a556 100644
--- a/support/matlab/helpers.cpp
+++ b/support/matlab/helpers.cpp
@@ -474,6 +474,11 @@ mxArray* images_to_array(const ImageList& img) {
 
 Image array_to_image(const mxArray* arr) {
 
+	if (!arr || mxIsEmpty(arr)) {
+		MEX_ERROR("Illegal image format, the image is empty");
+		return Image();
+	}
+
 	int ndims = mxGetNumberOfDimensions(arr);
 	const mwSize* dims = mxGetDimensions(arr);
 
-- 
2.43.0


From 43ae6e62beaa8f157ef328ab83da5f7e8a0bba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:49 +0000
Subject: [PATCH 61/65] fix: Matlab: client shows properties of earlier answers
 with every answer

---
 support/matlab/traxclient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/matlab/traxclient.cpp b/support/matlab/traxclient.cpp
index 929cc2b..128161d 100644
--- a/support/matlab/traxclient.cpp
+++ b/support/matlab/traxclient.cpp
@@ -460,6 +460,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]) {
 			// Start timing a frame
 			timer_state begin = timer_clock();
 
+			st.properties.clear();
+
 			if (!tracker.wait(st.region, st.properties))
 				throw std::runtime_error("Did not receive response.");
 
-- 
2.43.0


From 8793ca58264ba272c36f899449bae60fb05fe78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:48 +0000
Subject: [PATCH 62/65] fix: debug message longer than the buffer is formatted
 from used-up arguments

---
 support/client/client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/support/client/client.cpp b/support/client/client.cpp
index 7958b47..d66c13a 100644
--- a/support/client/client.cpp
+++ b/support/client/client.cpp
@@ -670,6 +670,8 @@ flush_condition.wait(1000);
 		if (required >= size) {
 			size = required;
 			buffer = (char*) realloc(buffer, sizeof(char) * size);
+			va_end(args);
+			va_start(args, format);
 			required = vsnprintf(buffer, size, format, args);
 		}
 #endif
-- 
2.43.0


From 41e53ffc6b576f0c6255a3402ea50cd8c99beca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:21 +0000
Subject: [PATCH 63/65] fix: encoded JPEG images without a JFIF header are not
 recognized

---
 src/trax.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trax.c b/src/trax.c
index e177367..a1e860c 100644
--- a/src/trax.c
+++ b/src/trax.c
@@ -137,10 +137,10 @@ char* parse_uri(char* buffer) {
 int verify_image_format(const char* buffer) {
 
     int i;
-    char jpeg_prefix[] = { (char) 255, (char) 216, (char) 255, (char) 224 };
+    char jpeg_prefix[] = { (char) 255, (char) 216, (char) 255 };
     char png_prefix[] = { (char) 137, (char) 80, (char) 78, (char) 71 };
 
-    for (i = 0; i < 4; i++) {
+    for (i = 0; i < 3; i++) {
         if (buffer[i] != jpeg_prefix[i])
             goto png;
     }
-- 
2.43.0


From 70c27ff4048966073a39f41e5ccceb12fa8ba22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:21 +0000
Subject: [PATCH 64/65] fix: size of JPEG images that are sent in a buffer or
 do not start with a JFIF header is misread

---
 support/client/cli.cpp | 106 ++++++++++++++++-------------------------
 1 file changed, 42 insertions(+), 64 deletions(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 221761e..7c6b468 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -189,75 +189,26 @@ typedef struct image_size {
 
 // Based on the example from: http://www.wischik.com/lu/programmer/get-image-size.html
 // Retrieve image size from image header
-image_size image_get_size(Image image) {
+image_size header_get_size(const unsigned char* buf, size_t len) {
 
-    int len;
     image_size result = { -1, -1 };
-    unsigned char buf[24] = { 0 };
-
-    if (image.type() == TRAX_IMAGE_MEMORY) {
-
-        image.get_memory_header(&result.width, &result.height, NULL);
-        return result;
-
-    }
-
-    if (image.type() == TRAX_IMAGE_PATH) {
-        const string filename = image.get_path();
-        int r;
-
-        result.width = -1;
-        result.height = -1;
 
-        FILE *f=fopen(filename.c_str(),"rb");
-        if ( f==0 ) return result;
+    // In all formats, the file is at least 24 bytes big
+    if (len < 24) return result;
 
-        fseek(f,0,SEEK_END);
-        int len=ftell(f);
-        fseek(f,0,SEEK_SET);
-
-        if (len<24) {fclose(f); return result;}
-
-        // Strategy:
-        // reading GIF dimensions requires the first 10 bytes of the file
-        // reading PNG dimensions requires the first 24 bytes of the file
-        // reading JPEG dimensions requires scanning through jpeg chunks
-        // In all formats, the file is at least 24 bytes big, so we'll read that always    
-        r = fread(buf,1,24,f);
-        if (r == -1) {
-            return result;
-        }
-
-        // For JPEGs, we need to read the first 12 bytes of each chunk.
-        // We'll read those 12 bytes at buf+2...buf+14, i.e. overwriting the existing buf.
-        if (buf[0]==0xFF && buf[1]==0xD8 && buf[2]==0xFF && buf[3]==0xE0 && buf[6]=='J' && buf[7]=='F' && buf[8]=='I' && buf[9]=='F') {
-            long pos=2;
-            while (buf[2]==0xFF) {
-                if (buf[3]==0xC0 || buf[3]==0xC1 || buf[3]==0xC2 || buf[3]==0xC3 || buf[3]==0xC9 || buf[3]==0xCA || buf[3]==0xCB) break;
-                pos += 2+(buf[4]<<8)+buf[5];
-                if (pos+12>len) break;
-                fseek(f,pos,SEEK_SET);
-                r = fread(buf+2,1,12,f);
-                if (r == -1) { return result; }
+    // JPEG: scan through the segments until the frame header
+    if (buf[0]==0xFF && buf[1]==0xD8 && buf[2]==0xFF) {
+        size_t pos = 2;
+        while (pos + 9 <= len && buf[pos] == 0xFF) {
+            unsigned char marker = buf[pos + 1];
+            if (marker == 0xFF) { pos++; continue; } // Padding
+            if (marker >= 0xC0 && marker <= 0xCF && marker != 0xC4 && marker != 0xC8 && marker != 0xCC) {
+                result.height = (buf[pos + 5]<<8) + buf[pos + 6];
+                result.width = (buf[pos + 7]<<8) + buf[pos + 8];
+                break;
             }
+            pos += 2 + (buf[pos + 2]<<8) + buf[pos + 3];
         }
-
-        fclose(f);
-        
-    } else if (image.type() == TRAX_IMAGE_BUFFER) {
-
-        const char* src = image.get_buffer(&len, NULL);
-
-        if (len<24) { return result; }
-
-        memcpy(buf, src, 24);
-
-    }
-
-    // JPEG: (first two bytes of buf are first two bytes of the jpeg file; rest of buf is the DCT frame
-    if (buf[0]==0xFF && buf[1]==0xD8 && buf[2]==0xFF) {
-        result.height = (buf[7]<<8) + buf[8];
-        result.width = (buf[9]<<8) + buf[10];
     }
 
     // GIF: first three bytes say "GIF", next three give version number. Then dimensions
@@ -273,7 +224,34 @@ image_size image_get_size(Image image) {
         result.height = (buf[20]<<24) + (buf[21]<<16) + (buf[22]<<8) + (buf[23]<<0);
     }
 
-  return result;
+    return result;
+}
+
+image_size image_get_size(Image image) {
+
+    image_size result = { -1, -1 };
+
+    if (image.type() == TRAX_IMAGE_MEMORY) {
+
+        image.get_memory_header(&result.width, &result.height, NULL);
+
+    } else if (image.type() == TRAX_IMAGE_PATH) {
+
+        std::ifstream input(image.get_path().c_str(), std::ifstream::in | std::ifstream::binary);
+        string data((std::istreambuf_iterator<char>(input)), std::istreambuf_iterator<char>());
+
+        result = header_get_size((const unsigned char*) data.data(), data.size());
+
+    } else if (image.type() == TRAX_IMAGE_BUFFER) {
+
+        int len = 0;
+        const char* src = image.get_buffer(&len, NULL);
+
+        result = header_get_size((const unsigned char*) src, len);
+
+    }
+
+    return result;
 }
 
 image_size image_get_size(ImageList image) {
-- 
2.43.0


From 50b74953eff4bedf6e8c00f6c5c1a4e6376a660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:21 +0000
Subject: [PATCH 65/65] fix: overlap is bounded by the image of the
 initialization instead of the current one

---
 support/client/cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/client/cli.cpp b/support/client/cli.cpp
index 7c6b468..2c0bf22 100644
--- a/support/client/cli.cpp
+++ b/support/client/cli.cpp
@@ -693,7 +693,7 @@ int main( int argc, char** argv) {
                     if (frame >= images.size()) break;
 
                     print_debug("Loading frame images.\n");
-                    ImageList image = load_images(images[frame], metadata.channels(), metadata.image_formats());
+                    image = load_images(images[frame], metadata.channels(), metadata.image_formats());
 
                     // Start timing a frame
                     timing_start = timer_clock();
-- 
2.43.0

