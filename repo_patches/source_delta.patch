From 822d02f8bb961ad57f94b770191d43e0da6c6057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 01/42] fix: keep the data of remaining entries when deleting
 metadata

bpak_del_meta() zeroed bytes of the entry it had just moved when that entry
was larger than the deleted one, left the deleted entry's data behind when
no entry followed it, and with a full table cleared the first part header
instead of the last metadata slot. Entries located before the deleted one
(non-packed table) are no longer moved out of the metadata array.
---
 lib/bpak.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index ddf7625..c4bfa84 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -82,15 +82,23 @@ BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
 {
     struct bpak_meta_header *next_meta = meta + 1;
     uint16_t offset_adjust = meta->size;
+    uint16_t vacated;
 
+    memset(&(hdr->metadata[meta->offset]), 0, meta->size);
     offset_adjust = BPAK_META_ALIGN_SIZE(offset_adjust);
 
     while(meta != &(hdr->meta[BPAK_MAX_META - 1])) {
-        if (next_meta->id != 0) {
+        /* Entries of a packed table always follow the one being deleted */
+        if (next_meta->id != 0 && next_meta->offset >= offset_adjust) {
             memmove(&(hdr->metadata[next_meta->offset - offset_adjust]),
                     &(hdr->metadata[next_meta->offset]),
                     next_meta->size);
-            memset(&(hdr->metadata[next_meta->offset]), 0, next_meta->size);
+            /* Only clear what the moved data no longer covers */
+            vacated = BPAK_MIN(next_meta->size, offset_adjust);
+            memset(&(hdr->metadata[next_meta->offset + next_meta->size -
+                                   vacated]),
+                   0,
+                   vacated);
 
             next_meta->offset -= offset_adjust;
         }
@@ -103,7 +111,7 @@ BPAK_EXPORT void bpak_del_meta(struct bpak_header *hdr,
         meta = next_meta++;
     }
 
-    memset(next_meta, 0, sizeof(*next_meta));
+    memset(meta, 0, sizeof(*meta));
 }
 
 BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
-- 
2.43.0


From 4d295f2f4d5d95baee64e46b3707a8c254410c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 02/42] fix: leave the header unchanged when metadata does not
 fit

bpak_add_meta() filled in the slot before checking that the data fits, so a
refused add left an out-of-bounds entry behind.
---
 lib/bpak.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index c4bfa84..b986b3a 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -56,12 +56,13 @@ BPAK_EXPORT int bpak_add_meta(struct bpak_header *hdr, bpak_id_t id,
 
     bpak_foreach_meta (hdr, m) {
         if (!m->id) {
+            if ((new_offset + size) > BPAK_METADATA_BYTES)
+                return -BPAK_NO_SPACE_LEFT;
+
             m->id = id;
             m->offset = new_offset;
             m->size = size;
             m->part_id_ref = part_ref_id;
-            if ((m->offset + m->size) > BPAK_METADATA_BYTES)
-                return -BPAK_NO_SPACE_LEFT;
 
             *meta = m;
             return BPAK_OK;
-- 
2.43.0


From ac5abf07fd78bf555b1e9f07ddcae26b59036436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 03/42] fix: validate all slots of a header

Lookups search every slot, but bpak_valid_header() stopped at the first
empty one, so entries after a gap were used unchecked. Also reject part
sizes that wrap around when padded.
---
 lib/bpak.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index b986b3a..6f65bef 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -247,7 +247,10 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check alignment of part data blocks */
     bpak_foreach_part (hdr, p) {
         if (!p->id)
-            break;
+            continue;
+
+        if (p->size > UINT64_MAX - p->pad_bytes)
+            return -BPAK_SIZE_ERROR;
 
         if (((p->size + p->pad_bytes) % BPAK_PART_ALIGN) != 0)
             return -BPAK_BAD_ALIGNMENT;
@@ -256,7 +259,7 @@ BPAK_EXPORT int bpak_valid_header(struct bpak_header *hdr)
     /* Check for out-of-bounds metadata */
     bpak_foreach_meta (hdr, m) {
         if (!m->id)
-            break;
+            continue;
 
         if ((m->size + m->offset) > BPAK_METADATA_BYTES) {
             return -BPAK_SIZE_ERROR;
-- 
2.43.0


From a0e400f886876a35b1cdfc25fd3f9f94e42370a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 04/42] fix: report failures while computing the header hash

bpak_verify_compute_header_hash() returned BPAK_OK on every error path,
leaving the caller with an uninitialised digest.
---
 lib/verify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/verify.c b/lib/verify.c
index 8be98db..f20f60f 100644
--- a/lib/verify.c
+++ b/lib/verify.c
@@ -55,7 +55,7 @@ BPAK_EXPORT int bpak_verify_compute_header_hash(struct bpak_header *header,
 
 err_free_hash_ctx_out:
     bpak_hash_free(&hash_ctx);
-    return BPAK_OK;
+    return rc;
 }
 
 BPAK_EXPORT int bpak_verify_compute_payload_hash(struct bpak_header *header,
-- 
2.43.0


From 6315fae06e22b3473beca23c681378f693a9a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 05/42] fix: reject an oversized signature when verifying a
 package

signature_sz comes from the file and could make verification read past the
signature field.
---
 lib/pkg_verify.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pkg_verify.c b/lib/pkg_verify.c
index 944040c..206a6bd 100644
--- a/lib/pkg_verify.c
+++ b/lib/pkg_verify.c
@@ -41,6 +41,9 @@ BPAK_EXPORT int bpak_pkg_verify(struct bpak_package *pkg,
     size_t hash_size = sizeof(hash_output);
     bool header_verified = false;
 
+    if (pkg->header.signature_sz > sizeof(pkg->header.signature))
+        return -BPAK_SIZE_ERROR;
+
     rc = bpak_verify_compute_header_hash(&pkg->header, hash_output, &hash_size);
 
     if (rc != BPAK_OK)
-- 
2.43.0


From 00796fd4369f71fdf126c85136976f8c19e92767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 06/42] fix: support hash trees with four levels

bpak_merkle_init() rejected the fourth level although it is within
BPAK_MERKLE_MAX_LEVELS, accepted by bpak_merkle_compute_size() and needed for
inputs larger than 8 GiB (up to the documented 1 TiB).
---
 lib/merkle.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/merkle.c b/lib/merkle.c
index 6fe9efe..f6b61a7 100644
--- a/lib/merkle.c
+++ b/lib/merkle.c
@@ -72,13 +72,13 @@ BPAK_EXPORT int bpak_merkle_init(struct bpak_merkle_context *ctx,
         level_length = (level_length >> BPAK_MERKLE_BLOCK_BITS) * 32;
         pad_bytes = (~level_length + 1) & (BPAK_MERKLE_BLOCK_SZ - 1);
         level_length += pad_bytes;
-        ctx->level_length[level] = level_length;
-        ctx->hash_tree_length += level_length;
-        level = level + 1;
 
         if (level >= BPAK_MERKLE_MAX_LEVELS)
             return -BPAK_NO_SPACE_LEFT;
 
+        ctx->level_length[level] = level_length;
+        ctx->hash_tree_length += level_length;
+        level = level + 1;
     } while (level_length != BPAK_MERKLE_BLOCK_SZ);
 
     ctx->no_of_levels = level;
-- 
2.43.0


From 84b0360932ebb01806b373ff9e5c56fb6f40a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 07/42] fix: check the hash tree before adding a file with one

A file that can not have a hash tree was added without it before the error
was reported, and failures to allocate or set up the tree were ignored.
---
 lib/pkg_create.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 38f132e..d0f11ec 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -54,18 +54,21 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
         return -BPAK_FILE_NOT_FOUND;
     }
 
-    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
-
-    if (rc != 0)
-        return rc;
-
     ssize_t merkle_sz = bpak_merkle_compute_size(statbuf.st_size);
 
     if (merkle_sz < 0)
         return merkle_sz;
 
+    rc = bpak_pkg_add_file(pkg, filename, part_name, flags);
+
+    if (rc != 0)
+        return rc;
+
     char *merkle_buf = bpak_calloc(merkle_sz, 1);
 
+    if (merkle_buf == NULL)
+        return -BPAK_FAILED;
+
     memset(merkle_buf, 0, merkle_sz);
 
     bpak_printf(1, "Allocated %li bytes for merkle tree\n", merkle_sz);
@@ -90,6 +93,9 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
                           true,
                           merkle_buf);
 
+    if (rc != BPAK_OK)
+        goto err_free_buf_out;
+
     FILE *fp = fopen(filename, "rb");
 
     if (fp == NULL) {
-- 
2.43.0


From e4d8738afe2edb73a95123a3885d3f89d3c3205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 08/42] fix: place new parts after transport encoded ones

Data of an added part was written at the offset it has in the decoded stream,
not where bpak_part_offset() looks for it when earlier parts are transport
encoded.
---
 lib/pkg_create.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index d0f11ec..f8da179 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -174,7 +174,7 @@ BPAK_EXPORT int bpak_pkg_add_file_with_merkle_tree(struct bpak_package *pkg,
     p->pad_bytes =
         0; /* Merkle tree is multiples of 4kByte, no padding needed */
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, bpak_part_offset(h, p), SEEK_SET);
 
     if (rc != BPAK_OK) {
         bpak_printf(0, "Could not seek to new pos\n");
@@ -244,7 +244,7 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     else
         p->pad_bytes = 0;
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, bpak_part_offset(h, p), SEEK_SET);
 
     if (rc != 0) {
         bpak_printf(0, "Error: Could not seek to new pos\n");
@@ -332,7 +332,7 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     else
         p->pad_bytes = 0;
 
-    rc = fseek(pkg->fp, new_offset, SEEK_SET);
+    rc = fseek(pkg->fp, bpak_part_offset(h, p), SEEK_SET);
 
     if (rc != 0) {
         bpak_printf(0, "Could not seek to new pos\n");
-- 
2.43.0


From f2ec9887b48c6b59959012669b4b72c88d16beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 09/42] fix: do not loop forever when an added file turns out
 short

bpak_pkg_add_file() spun when the input could not be read to its stat() size
and wrapped its byte counter when the input had grown.
---
 lib/pkg_create.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index f8da179..81ca350 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -261,7 +261,15 @@ BPAK_EXPORT int bpak_pkg_add_file(struct bpak_package *pkg,
     }
 
     while (bytes_to_write) {
-        size_t read_bytes = fread(chunk_buffer, 1, sizeof(chunk_buffer), in_fp);
+        size_t read_bytes = fread(chunk_buffer,
+                                  1,
+                                  BPAK_MIN(bytes_to_write,
+                                           sizeof(chunk_buffer)),
+                                  in_fp);
+        if (read_bytes == 0) {
+            rc = -BPAK_READ_ERROR;
+            break;
+        }
         if (fwrite(chunk_buffer, 1, read_bytes, pkg->fp) != read_bytes) {
             rc = -BPAK_WRITE_ERROR;
             break;
-- 
2.43.0


From 67192bfdb730747e05dc7b86f7d121713953bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 10/42] fix: pad key parts with zeroes

bpak_pkg_add_key() padded the part with up to 511 bytes read past a single
byte on the stack, and did not release the key with the library allocator.
---
 lib/pkg_create.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/pkg_create.c b/lib/pkg_create.c
index 81ca350..774d7b5 100644
--- a/lib/pkg_create.c
+++ b/lib/pkg_create.c
@@ -355,8 +355,9 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
     }
 
     /* Write zero padding */
-    uint8_t zero = 0;
-    if (fwrite(&zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
+    uint8_t zero[BPAK_PART_ALIGN];
+    memset(zero, 0, sizeof(zero));
+    if (fwrite(zero, 1, p->pad_bytes, pkg->fp) != p->pad_bytes) {
         rc = -BPAK_WRITE_ERROR;
         goto err_free_key_out;
     }
@@ -374,6 +375,6 @@ BPAK_EXPORT int bpak_pkg_add_key(struct bpak_package *pkg, const char *filename,
         goto err_free_key_out;
 
 err_free_key_out:
-    free(key);
+    bpak_free(key);
     return rc;
 }
-- 
2.43.0


From 28680d35f552e7123cafb230badf57a2b346c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 11/42] fix: do not find unused slots when looking up id 0

bpak_get_meta() and bpak_get_part() returned the first unused slot for id 0,
which for instance made bpak_pkg_delete_part() loop forever.
---
 lib/bpak.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bpak.c b/lib/bpak.c
index 6f65bef..b1e5052 100644
--- a/lib/bpak.c
+++ b/lib/bpak.c
@@ -19,7 +19,7 @@ static int bpak_get_meta_int(struct bpak_header *hdr, bpak_id_t id,
                              struct bpak_meta_header **meta)
 {
     bpak_foreach_meta (hdr, m) {
-        if (m->id == id) {
+        if (id != 0 && m->id == id) {
             if (match_partref) {
                 if (m->part_id_ref != part_id_ref)
                     continue;
@@ -119,7 +119,7 @@ BPAK_EXPORT int bpak_get_part(struct bpak_header *hdr, bpak_id_t id,
                               struct bpak_part_header **part)
 {
     bpak_foreach_part (hdr, p) {
-        if (p->id == id) {
+        if (id != 0 && p->id == id) {
             (*part) = p;
             return BPAK_OK;
         }
-- 
2.43.0


From 2609ea7aa9f593b7141e9f43afb7c74cffb9fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 12/42] fix: do not turn short files into packages when opening
 them

Opening an existing file shorter than a header with a writable mode
overwrote its contents with an empty header.
---
 lib/pkg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 2f11cc2..0790ee6 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -46,8 +46,13 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
     size_t read_bytes = fread(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
+    if (read_bytes != 0 && read_bytes != sizeof(pkg->header)) {
+        rc = -BPAK_SIZE_ERROR;
+        goto err_close_io;
+    }
+
     /* Initialize and write BPAK header when new files are created */
-    if (read_bytes != sizeof(pkg->header)) {
+    if (read_bytes == 0) {
         rc = bpak_init_header(&pkg->header);
         if (rc != BPAK_OK) {
             goto err_close_io;
-- 
2.43.0


From bf51206d3a168da94395f023e0e74c800be689b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 13/42] fix: do not leave a closed file in a package that
 failed to open

A following bpak_pkg_close() closed the same FILE again.
---
 lib/pkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 0790ee6..76f3ec2 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -91,6 +91,7 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
 err_close_io:
     fclose(pkg->fp);
+    pkg->fp = NULL;
     return rc;
 }
 
-- 
2.43.0


From b6f2004187cbe767d57be59675b3e2efbf850077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 14/42] fix: include padding in the package size

bpak_pkg_size() left out the padding of parts that are not transport
encoded, so it did not match the size of the package.
---
 lib/pkg.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 76f3ec2..5075736 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -162,10 +162,7 @@ BPAK_EXPORT size_t bpak_pkg_size(struct bpak_package *pkg)
     size_t transport_size = 0;
 
     bpak_foreach_part (&pkg->header, p) {
-        if (p->flags & BPAK_FLAG_TRANSPORT)
-            transport_size += p->transport_size;
-        else
-            transport_size += p->size;
+        transport_size += bpak_part_size(p);
     }
 
     transport_size += sizeof(struct bpak_header);
-- 
2.43.0


From 158dabf5ccec5151bb1b94b902b046c2aec293c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 15/42] fix: refuse signatures that do not fit in the header

bpak_pkg_write_raw_signature() wrote past the signature field.
---
 lib/pkg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 5075736..440b809 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -196,6 +196,9 @@ BPAK_EXPORT int bpak_pkg_write_raw_signature(struct bpak_package *pkg,
                                              const uint8_t *signature,
                                              size_t size)
 {
+    if (size > sizeof(pkg->header.signature))
+        return -BPAK_SIZE_ERROR;
+
     memset(pkg->header.signature, 0, sizeof(pkg->header.signature));
     memcpy(pkg->header.signature, signature, size);
     pkg->header.signature_sz = size;
-- 
2.43.0


From ac10c2d4da94548e287340c3580755bcb632323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 16/42] fix: extract transport encoded parts completely

The encoded data has no padding, so subtracting pad_bytes cut its end off or
wrapped around.
---
 lib/pkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 440b809..e1ffb68 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -451,7 +451,7 @@ BPAK_EXPORT int bpak_pkg_extract_file(struct bpak_package *pkg,
     }
 
     char copy_buffer[BPAK_CHUNK_BUFFER_LENGTH];
-    size_t bytes_to_copy = bpak_part_size(part) - part->pad_bytes;
+    size_t bytes_to_copy = bpak_part_size_wo_pad(part);
     size_t chunk_to_write = 0;
     size_t chunk_read = 0;
 
-- 
2.43.0


From 72cfe9d485033ecb687a99542402ad380f93d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 17/42] fix: release the decoder when the input package can not
 be read

---
 lib/pkg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index e1ffb68..4041f14 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -320,7 +320,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
     if (fseek(input->fp, sizeof(struct bpak_header), SEEK_SET) != 0) {
         bpak_printf(0, "%s: Error, could not seek input stream", __func__);
-        return -BPAK_SEEK_ERROR;
+        rc = -BPAK_SEEK_ERROR;
+        goto err_out;
     }
 
     bpak_foreach_part (patch_header, part) {
@@ -359,7 +360,8 @@ BPAK_EXPORT int bpak_pkg_transport_decode(struct bpak_package *input,
 
             if (bytes_read != chunk_length) {
                 bpak_printf(0, "%s: bytes_read != chunk_length\n", __func__);
-                return -BPAK_READ_ERROR;
+                rc = -BPAK_READ_ERROR;
+                goto err_out;
             }
 
             rc = bpak_transport_decode_write_chunk(&decode_ctx,
-- 
2.43.0


From 68bdc573fa180e67f10cc57618d2a265c0c9392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 18/42] fix: stay within the package when moving parts after a
 deleted one

bpak_pkg_delete_part() read whole buffers past the last part, which wrapped
the byte counter when there was more data in the file, and never finished on
a file that ends early.
---
 lib/pkg.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 4041f14..4abd138 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -546,15 +546,13 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
         size_t chunk_length =
             BPAK_MIN(bytes_to_process, sizeof(copy_buffer));
-        size_t chunk_read = fread(copy_buffer, 1, BPAK_CHUNK_BUFFER_LENGTH, pkg->fp);
+        size_t chunk_read = fread(copy_buffer, 1, chunk_length, pkg->fp);
 
         if (chunk_read != chunk_length) {
             rc = ferror(pkg->fp);
-            if (rc != 0) {
-                bpak_printf(0, "%s: Error: Couldn't read file: %d\n",
-                            __func__, rc);
-                return -BPAK_READ_ERROR;
-            }
+            bpak_printf(0, "%s: Error: Couldn't read file: %d\n",
+                        __func__, rc);
+            return -BPAK_READ_ERROR;
         }
 
         if (fseek(pkg->fp, write_offset, SEEK_SET) != 0 ||
-- 
2.43.0


From 8954723463495fbd4059f4f49a064ad51291d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 19/42] fix: keep part offsets correct when deleting an encoded
 part

Part offsets are in the decoded stream, so they move by the decoded size.
---
 lib/pkg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 4abd138..28fb1b2 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -506,6 +506,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
 
     p_offset = bpak_part_offset(h, part);
     p_size = bpak_part_size(part);
+    uint64_t decoded_size = part->size + part->pad_bytes;
 
     bpak_del_part(h, part);
     uint64_t bytes_to_process = 0;
@@ -515,7 +516,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
         if (!part->id)
             break;
 
-        part->offset -= p_size;
+        part->offset -= decoded_size;
         bytes_to_process += bpak_part_size(part);
     }
 
-- 
2.43.0


From c10fb513cbaac7271669257413dc980da4bb6c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 20/42] fix: only remove metadata in use together with a part

Unused slots are not validated and must not be passed to bpak_del_meta().
---
 lib/pkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pkg.c b/lib/pkg.c
index 28fb1b2..8173ca3 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -523,7 +523,7 @@ BPAK_EXPORT int bpak_pkg_delete_part(struct bpak_package *pkg,
     /* Remove any meta-data that points to the part */
     if (remove_meta) {
         bpak_foreach_meta(h, meta) {
-            if (meta->part_id_ref == part_id) {
+            if (meta->id && meta->part_id_ref == part_id) {
                 bpak_del_meta(h, meta);
                 /* Need to step back as "meta" now points to one beyond the removed element */
                 meta--;
@@ -611,7 +611,7 @@ BPAK_EXPORT int bpak_pkg_delete_all_parts(struct bpak_package *pkg, bool remove_
     /* Remove any meta-data that points to any part */
     if (remove_meta) {
         bpak_foreach_meta(h, meta) {
-            if (meta->part_id_ref != 0) {
+            if (meta->id && meta->part_id_ref != 0) {
                 bpak_del_meta(h, meta);
                 /* Need to step back as "meta" now points to one beyond the removed element */
                 meta--;
-- 
2.43.0


From 5145bc0b0432fb1e3278b2bf63a1360e900e8b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 21/42] fix: compare the package id of origin and patch when
 decoding

The patch package id was read from the origin header, so an origin of
another package was not refused.
---
 lib/transport_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/transport_decode.c b/lib/transport_decode.c
index 935cf40..6677878 100644
--- a/lib/transport_decode.c
+++ b/lib/transport_decode.c
@@ -184,7 +184,7 @@ bpak_transport_decode_set_origin(struct bpak_transport_decode *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    patch_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+    patch_package_uuid = bpak_get_meta_ptr(ctx->patch_header, meta, uint8_t);
 
     if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
         return -BPAK_PACKAGE_UUID_MISMATCH;
-- 
2.43.0


From ff9cca3f7c223c30d3b9556eab9adfc81cf65528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 22/42] fix: report packages without package id when encoding

bpak_transport_encode() used the metadata lookup result before checking
that there was one.
---
 lib/transport_encode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index b7dfbb4..cc9c4fa 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -368,21 +368,21 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
                            0,
                            &meta);
 
-        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        origin_package_uuid = bpak_get_meta_ptr(origin_header, meta, uint8_t);
+
         rc = bpak_get_meta(input_header,
                            BPAK_ID_BPAK_PACKAGE,
                            0,
                            &meta);
 
-        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
-
         if (rc != BPAK_OK)
             return rc;
 
+        patch_package_uuid = bpak_get_meta_ptr(input_header, meta, uint8_t);
+
         if (memcmp(origin_package_uuid, patch_package_uuid, 16) != 0)
             return -BPAK_PACKAGE_UUID_MISMATCH;
     }
-- 
2.43.0


From 0fdf03bb8f77524f5dc154188e7a52df990efe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 23/42] fix: copy parts that are already transport encoded when
 encoding

Their header entry was kept but the data was left out of the output.
---
 lib/transport_encode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/transport_encode.c b/lib/transport_encode.c
index cc9c4fa..0ebcd5f 100644
--- a/lib/transport_encode.c
+++ b/lib/transport_encode.c
@@ -394,7 +394,8 @@ int bpak_transport_encode(FILE *input_fp, struct bpak_header *input_header,
         if (ph->id == 0)
             break;
 
-        if (bpak_get_meta(input_header,
+        if (!(ph->flags & BPAK_FLAG_TRANSPORT) &&
+            bpak_get_meta(input_header,
                           BPAK_ID_BPAK_TRANSPORT,
                           ph->id,
                           &meta) == BPAK_OK) {
-- 
2.43.0


From 29aa58ecc66f1fdd0e3bb0b3f4109f49882cd8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 24/42] fix: refuse patches with negative lengths

Negative diff or extra counts were turned into huge lengths for the origin
read and output write callbacks.
---
 lib/bspatch.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 6389961..80204e2 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -89,6 +89,13 @@ process_more:
                     ctx->adjust,
                     bytes_available);
 
+        if (ctx->diff_count < 0 || ctx->extra_count < 0) {
+            bpak_printf(0, "Error: Negative length in patch\n");
+            ctx->state = BPAK_PATCH_STATE_ERROR;
+            rc = -BPAK_SIZE_ERROR;
+            break;
+        }
+
         ctx->state = BPAK_PATCH_STATE_APPLY_DIFF;
 
         if (bytes_available)
-- 
2.43.0


From 0c6b75db94cf922e9a221807014064c771c0a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 25/42] fix: refuse patches that overflow the origin position

---
 lib/bspatch.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 80204e2..8518bf4 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -51,6 +51,24 @@ static int64_t offtin(uint8_t *buf)
     return y;
 }
 
+static int adjust_origin(struct bpak_bspatch_context *ctx)
+{
+    off_t position;
+
+    if (__builtin_add_overflow(ctx->origin_position, ctx->adjust, &position) ||
+        __builtin_add_overflow(ctx->origin_offset,
+                               position,
+                               &(off_t){ 0 })) {
+        bpak_printf(0, "Error: Origin position out of range\n");
+        ctx->state = BPAK_PATCH_STATE_ERROR;
+        return -BPAK_SEEK_ERROR;
+    }
+
+    ctx->origin_position = position;
+
+    return BPAK_OK;
+}
+
 static int bspatch_write(struct bpak_bspatch_context *ctx, uint8_t *buffer,
                          size_t length)
 {
@@ -159,7 +177,11 @@ process_more:
             if (ctx->extra_count > 0) {
                 ctx->state = BPAK_PATCH_STATE_APPLY_EXTRA;
             } else {
-                ctx->origin_position += ctx->adjust;
+                rc = adjust_origin(ctx);
+
+                if (rc != BPAK_OK)
+                    break;
+
                 ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
                 ctx->ctrl_buf_count = 0;
             }
@@ -195,9 +217,13 @@ process_more:
         pp += data_to_process;
 
         if (ctx->extra_count == 0) {
+            rc = adjust_origin(ctx);
+
+            if (rc != BPAK_OK)
+                break;
+
             ctx->state = BPAK_PATCH_STATE_FILL_CTRL_BUF;
             ctx->ctrl_buf_count = 0;
-            ctx->origin_position += ctx->adjust;
 
             if (bytes_available > 0) {
                 goto process_more;
-- 
2.43.0


From e6e4e7ab01dc5a70e2d6ea26f8a73f383a8ebdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 26/42] fix: set up the lzma allocator before the decoder
 allocates memory

With bpak_set_calloc_free() the decoder state was allocated by malloc() but
released by the configured function.
---
 lib/bspatch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bspatch.c b/lib/bspatch.c
index 8518bf4..98ea873 100644
--- a/lib/bspatch.c
+++ b/lib/bspatch.c
@@ -253,14 +253,14 @@ static int decompressor_init(struct bpak_bspatch_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *strm = &ctx->decompressor.lzma_stream;
 
+        strm->allocator = &lzma_alloc;
+
         lzma_ret ret = lzma_stream_decoder(strm, UINT64_MAX, LZMA_CONCATENATED);
 
         if (ret != LZMA_OK) {
             bpak_printf(0, "lzma init error (%u)\n", ret);
             return -BPAK_DECOMPRESSOR_ERROR;
         }
-
-        strm->allocator = &lzma_alloc;
     } break;
 #endif
     default:
-- 
2.43.0


From ad5f71137fa7b3bb1e4f8135f744bbe0c9a0cba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 27/42] fix: allocate the last entry of the bsdiff search range

search() was given origin_length as its last index and read one entry past
the suffix array. This also makes an empty origin work.
---
 lib/bsdiff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index e1b9fa8..c2f8a00 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -625,7 +625,8 @@ BPAK_EXPORT int bpak_bsdiff_init(struct bpak_bsdiff_context *ctx,
     if (rc != BPAK_OK)
         return rc;
 
-    ctx->suffix_array = bpak_calloc(origin_length, sizeof(int64_t));
+    /* search() also looks at the entry after the last suffix */
+    ctx->suffix_array = bpak_calloc(origin_length + 1, sizeof(int64_t));
 
     if (!ctx->suffix_array) {
         rc = -BPAK_FAILED;
-- 
2.43.0


From 7f9c9322d5e7e7136a85c5bc7428452353e0e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 28/42] fix: set up the lzma encoder's allocator before using
 it

The stream was used before the check of its allocation, leaked on errors, and
the encoder's memory came from another allocator than the one releasing it.
---
 lib/bsdiff.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/bsdiff.c b/lib/bsdiff.c
index c2f8a00..ea22a9b 100644
--- a/lib/bsdiff.c
+++ b/lib/bsdiff.c
@@ -343,11 +343,17 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
     case BPAK_COMPRESSION_LZMA: {
         lzma_stream *stream;
         stream = bpak_calloc(sizeof(lzma_stream), 1);
+
+        if (stream == NULL)
+            return -BPAK_FAILED;
+
+        stream->allocator = &lzma_alloc;
         ctx->compressor_priv = stream;
 
         lzma_options_lzma opt_lzma2;
         if (lzma_lzma_preset(&opt_lzma2, LZMA_PRESET_DEFAULT)) {
             bpak_free(stream);
+            ctx->compressor_priv = NULL;
             return -BPAK_COMPRESSOR_ERROR;
         }
 
@@ -359,13 +365,11 @@ static int compressor_init(struct bpak_bsdiff_context *ctx)
 
         lzma_ret ret = lzma_stream_encoder(stream, filters, LZMA_CHECK_CRC64);
 
-        if (ret != LZMA_OK)
+        if (ret != LZMA_OK) {
+            bpak_free(stream);
+            ctx->compressor_priv = NULL;
             return -BPAK_COMPRESSOR_ERROR;
-
-        if (stream == NULL)
-            return -BPAK_FAILED;
-
-        stream->allocator = &lzma_alloc;
+        }
     } break;
 #endif
     default:
-- 
2.43.0


From 71f94c48c8711b22e132b1255f38b09046fbfc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 29/42] fix: check the size of keys loaded from a keystore

The key part was read into a 512 byte buffer whatever its size. RSA4096 keys
are larger than that, so make the buffer large enough for them.
---
 lib/keystore_load_from_file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/keystore_load_from_file.c b/lib/keystore_load_from_file.c
index 87e07db..8f56160 100644
--- a/lib/keystore_load_from_file.c
+++ b/lib/keystore_load_from_file.c
@@ -22,7 +22,7 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
                                                  struct bpak_key **output)
 {
     int rc;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     struct bpak_package pkg;
     struct bpak_part_header *key_part = NULL;
     struct bpak_meta_header *meta = NULL;
@@ -61,6 +61,11 @@ BPAK_EXPORT int bpak_keystore_load_key_from_file(const char *filename,
 
     key_length = bpak_part_size_wo_pad(key_part);
 
+    if (key_length > sizeof(key_buffer)) {
+        rc = -BPAK_SIZE_ERROR;
+        goto err_close_pkg_out;
+    }
+
     if (fseek(pkg.fp, bpak_part_offset(&pkg.header, key_part), SEEK_SET) != 0) {
         rc = -BPAK_SEEK_ERROR;
         goto err_close_pkg_out;
-- 
2.43.0


From 6bfe04ee6cecacfbcf23c718c8847d768be10323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 30/42] fix: make room for RSA4096 keys when parsing public
 keys

Their encoding is 550 bytes, so parsing always failed.
---
 lib/mbedtls_wrapper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 905dc94..2300da6 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -435,7 +435,7 @@ int bpak_mbed_parse_public_key(const uint8_t *buffer, size_t length,
 {
     int rc = BPAK_OK;
     struct bpak_key *key = NULL;
-    uint8_t key_buffer[512];
+    uint8_t key_buffer[1024];
     enum bpak_key_kind kind;
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-- 
2.43.0


From 8f1a7ca3ddc53f355a8bcedc43f2abd83c94c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 31/42] fix: handle errors and release the key context in
 public key functions

The mbedtls key context leaked after loading a public key and after failing
to parse the key to verify with, and failures to load or allocate the key were
not checked.
---
 lib/mbedtls_wrapper.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 2300da6..6fb901e 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -175,6 +175,7 @@ int bpak_mbed_verify(const uint8_t *signature, size_t signature_length,
     rc = mbedtls_pk_parse_public_key(&ctx, key->data, key->size);
 
     if (rc != 0) {
+        mbedtls_pk_free(&ctx);
         return -BPAK_KEY_DECODE;
     }
 
@@ -279,7 +280,11 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     unsigned char tmp[1024];
     mbedtls_pk_context ctx;
     mbedtls_pk_init(&ctx);
-    mbedtls_pk_parse_public_keyfile(&ctx, filename);
+
+    if (mbedtls_pk_parse_public_keyfile(&ctx, filename) != 0) {
+        rc = -BPAK_KEY_DECODE;
+        goto err_free_ctx;
+    }
 
     int len = mbedtls_pk_write_pubkey_der(&ctx, tmp, sizeof(tmp));
 
@@ -289,6 +294,12 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
     }
 
     struct bpak_key *key = bpak_calloc(sizeof(struct bpak_key) + len, 1);
+
+    if (key == NULL) {
+        rc = -BPAK_FAILED;
+        goto err_free_ctx;
+    }
+
     key->size = len;
 
     if (strcmp(mbedtls_pk_get_name(&ctx), "EC") == 0) {
@@ -320,7 +331,7 @@ int bpak_mbed_load_public_key(const char *filename, struct bpak_key **output)
 
     memcpy(key->data, &tmp[sizeof(tmp) - len], len);
     (*output) = key;
-    return BPAK_OK;
+    goto err_free_ctx;
 
 err_free_key_out:
     bpak_free(key);
-- 
2.43.0


From f1aa29851c38414d54387d5e4c06b39fb6e4f397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 32/42] fix: handle errors and release contexts when loading a
 private key

---
 lib/mbedtls_wrapper.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/mbedtls_wrapper.c b/lib/mbedtls_wrapper.c
index 6fb901e..14fe22d 100644
--- a/lib/mbedtls_wrapper.c
+++ b/lib/mbedtls_wrapper.c
@@ -375,6 +375,12 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
     rc = mbedtls_pk_parse_keyfile(&ctx, filename, NULL);
 #endif
 
+    if (rc != 0) {
+        bpak_printf(0, "Error: Could not load private key (%i)\n", rc);
+        rc = -BPAK_KEY_DECODE;
+        goto err_free_ctx_out;
+    }
+
     int len = mbedtls_pk_write_key_der(&ctx, tmp, sizeof(tmp));
 
     if (len < 0) {
@@ -431,12 +437,15 @@ int bpak_mbed_load_private_key(const char *filename, struct bpak_key **output)
     }
     memcpy(key->data, &tmp[sizeof(tmp) - len], len);
     (*output) = key;
-    mbedtls_pk_free(&ctx);
-    return rc;
+    goto err_free_ctx_out;
 
 err_free_key_out:
     bpak_free(key);
 err_free_ctx_out:
+#if MBEDTLS_VERSION_MAJOR >= 3
+    mbedtls_ctr_drbg_free(&ctr_drbg);
+    mbedtls_entropy_free(&entropy);
+#endif
     mbedtls_pk_free(&ctx);
     return rc;
 }
-- 
2.43.0


From 4fe8f8a3a498dfcab20478f28688d0f78cca40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 33/42] fix: do not write past the buffer when converting to
 hex

---
 lib/utils.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index d32597e..37b521d 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -25,20 +25,18 @@ BPAK_EXPORT int bpak_bin2hex(uint8_t *data, size_t data_sz, char *buf,
     size_t i = data_sz;
     size_t n = 0;
 
+    /* Two digits for every byte and the terminator */
+    if (buf_sz == 0 || data_sz > (buf_sz - 1) / 2)
+        return -1;
+
     for (i = 0; i < data_sz; i++) {
         b = data[i];
         b = (b >> 4) & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
 
-        if (n > buf_sz)
-            return -1;
-
         b = data[i];
         b = b & 0x0F;
         buf[n++] = (b > 9) ? ('a' + (b - 10)) : ('0' + b);
-
-        if (n > buf_sz)
-            return -1;
     }
 
     buf[n] = 0;
-- 
2.43.0


From 6594e820c06a00c312431ba242531e32a6a1644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 34/42] fix: render only metadata of the expected size and end
 the strings

---
 lib/utils.c | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index 37b521d..d65ed14 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -60,6 +60,38 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
 {
     bpak_id_t *id_ptr = NULL;
     uint8_t *byte_ptr = NULL;
+    size_t needed = 0;
+
+    /* Nothing of an earlier string is left behind, also when an error is
+     * reported */
+    if (size)
+        *buf = 0;
+
+    switch (m->id) {
+    case BPAK_ID_BPAK_KEY_ID:
+    case BPAK_ID_BPAK_KEY_STORE:
+    case BPAK_ID_KEYSTORE_PROVIDER_ID:
+        needed = sizeof(bpak_id_t);
+        break;
+    case BPAK_ID_BPAK_PACKAGE:
+        needed = 16;
+        break;
+    case BPAK_ID_BPAK_TRANSPORT:
+        needed = sizeof(struct bpak_transport_meta);
+        break;
+    case BPAK_ID_MERKLE_SALT:
+    case BPAK_ID_MERKLE_ROOT_HASH:
+        needed = 32;
+        break;
+    case BPAK_ID_PB_LOAD_ADDR:
+        needed = sizeof(uint64_t);
+        break;
+    default:
+        break;
+    }
+
+    if (m->size < needed)
+        return -BPAK_SIZE_ERROR;
 
     if (m->id == BPAK_ID_BPAK_KEY_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
@@ -69,7 +101,7 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
         snprintf(buf, size, "%" PRIx32, *id_ptr);
     } else if (m->id == BPAK_ID_BPAK_PACKAGE) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_uuid_to_string(byte_ptr, buf, size);
+        return bpak_uuid_to_string(byte_ptr, buf, size);
     } else if (m->id == BPAK_ID_BPAK_TRANSPORT) {
         struct bpak_transport_meta *transport_meta =
             bpak_get_meta_ptr(h, m, struct bpak_transport_meta);
@@ -81,26 +113,26 @@ BPAK_EXPORT int bpak_meta_to_string(struct bpak_header *h,
                  transport_meta->alg_id_decode);
     } else if (m->id == BPAK_ID_MERKLE_SALT) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        if (bpak_bin2hex(byte_ptr, 32, buf, size) != 0)
+            return -BPAK_SIZE_ERROR;
     } else if (m->id == BPAK_ID_MERKLE_ROOT_HASH) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
-        bpak_bin2hex(byte_ptr, 32, buf, size);
+        if (bpak_bin2hex(byte_ptr, 32, buf, size) != 0)
+            return -BPAK_SIZE_ERROR;
     } else if (m->id == BPAK_ID_PB_LOAD_ADDR) {
         uint64_t *entry_addr = bpak_get_meta_ptr(h, m, uint64_t);
         snprintf(buf, size, "Entry: 0x%08" PRIX64, *entry_addr);
     } else if (m->id == BPAK_ID_BPAK_VERSION) {
         byte_ptr = bpak_get_meta_ptr(h, m, uint8_t);
 
-        if (m->size > size)
+        if (m->size >= size)
             return -BPAK_SIZE_ERROR;
 
         memcpy(buf, byte_ptr, m->size);
+        buf[m->size] = 0;
     } else if (m->id == BPAK_ID_KEYSTORE_PROVIDER_ID) {
         id_ptr = bpak_get_meta_ptr(h, m, bpak_id_t);
         snprintf(buf, size, "0x%" PRIx32, *id_ptr);
-    } else {
-        if (size)
-            *buf = 0;
     }
 
     return BPAK_OK;
-- 
2.43.0


From 1c3d452d0fe2d761d4263b4ecf798ab49064e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 35/42] fix: report failures when showing the hash of a package

---
 src/show.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/show.c b/src/show.c
index 4a6b859..ca3482e 100644
--- a/src/show.c
+++ b/src/show.c
@@ -189,7 +189,10 @@ int action_show(int argc, char **argv)
         goto err_pkg_close;
     } else if (text_hash_output) {
         hash_size = sizeof(hash_output);
-        bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+        rc = bpak_pkg_update_hash(&pkg, hash_output, &hash_size);
+
+        if (rc != BPAK_OK)
+            goto err_pkg_close;
 
         for (unsigned int i = 0; i < hash_size; i++)
             printf("%2.2x", hash_output[i] & 0xFF);
-- 
2.43.0


From 3bbc5dc323360fdca0e5b0a0dcd56ccaa390384d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 36/42] fix: refuse to set metadata to strings that can not fit

---
 src/set.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/set.c b/src/set.c
index b6adc80..721117e 100644
--- a/src/set.c
+++ b/src/set.c
@@ -153,6 +153,14 @@ int action_set(int argc, char **argv)
         if (!encoder) {
             size_t len = strlen(from_string);
 
+            /* More than any header can hold, and more than the 16-bit
+             * metadata size can tell */
+            if (len + 1 > BPAK_METADATA_BYTES) {
+                rc = -BPAK_NO_SPACE_LEFT;
+                fprintf(stderr, "Error: String is too long\n");
+                goto err_close_fp_out;
+            }
+
             if (len + 1 > meta->size) {
                 if (bpak_get_verbosity() > 2) {
                    printf("Need to grow metadata field. Remove and re-add");
-- 
2.43.0


From 3b5ef18fea97fe1845fad1fc5d80f8cb10718945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 37/42] fix: do not rewrite the header when the encoder is
 unknown

---
 src/set.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/set.c b/src/set.c
index 721117e..67eadc5 100644
--- a/src/set.c
+++ b/src/set.c
@@ -177,6 +177,7 @@ int action_set(int argc, char **argv)
                      * internal bugs
                      */
                     fprintf(stderr, "FATAL ERROR");
+                    free(tmp_header);
                     goto err_close_fp_out;
                 }
 
@@ -235,6 +236,7 @@ int action_set(int argc, char **argv)
         } else {
             rc = -BPAK_FAILED;
             fprintf(stderr, "Error: Unknown encoder\n");
+            goto err_close_fp_out;
         }
     } else if (key_id_flag || keystore_id_flag) {
 
-- 
2.43.0


From 3be3e604862b4d662d23059867a19da570518a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 38/42] fix: do not truncate metadata read from long files

---
 src/add.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/add.c b/src/add.c
index f920938..9a38fa1 100644
--- a/src/add.c
+++ b/src/add.c
@@ -28,7 +28,9 @@ int action_add(int argc, char **argv)
     int opt;
     int long_index = 0;
     uint32_t flags = 0;
-    char metadata_input[BPAK_METADATA_BYTES] = { 0 };
+    /* Room for one byte too many, to tell files that are too long, and for
+     * the terminator that the encoders depend on */
+    char metadata_input[BPAK_METADATA_BYTES + 2] = { 0 };
     size_t metadata_input_length = 0;
     const char *filename = NULL;
     const char *part_name = NULL;
@@ -143,7 +145,7 @@ int action_add(int argc, char **argv)
 
         if (from_string) {
             metadata_input_length = strlen(from_string) + 1;
-            if (metadata_input_length > sizeof(metadata_input)) {
+            if (metadata_input_length > BPAK_METADATA_BYTES) {
                 rc = -BPAK_NO_SPACE_LEFT;
                 goto err_close_pkg_out;
             }
@@ -157,10 +159,16 @@ int action_add(int argc, char **argv)
             }
 
             metadata_input_length = fread(metadata_input, 1,
-                                    sizeof(metadata_input), meta_in_fp);
+                                    BPAK_METADATA_BYTES + 1, meta_in_fp);
 
             fclose(meta_in_fp);
 
+            if (metadata_input_length > BPAK_METADATA_BYTES) {
+                fprintf(stderr, "Error: '%s' is too long\n", from_file);
+                rc = -BPAK_NO_SPACE_LEFT;
+                goto err_close_pkg_out;
+            }
+
             if (metadata_input_length == 0) {
                 fprintf(stderr, "Error: Read zero bytes\n");
                 rc = -BPAK_FAILED;
-- 
2.43.0


From d929f0b950cb44ff73f431a7faa0e54ec7b99310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 39/42] fix: find the keys of a keystore by their computed
 offset

---
 src/generate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate.c b/src/generate.c
index 44da58f..6c4d174 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -184,7 +184,7 @@ int action_generate(int argc, char **argv)
             printf("    .id = 0x%x,\n", p->id);
             printf("    .size = %"PRIu64",\n", p->size);
 
-            if (fseek(fp, p->offset, SEEK_SET) != 0) {
+            if (fseek(fp, bpak_part_offset(h, p), SEEK_SET) != 0) {
                 rc = -BPAK_SEEK_ERROR;
                 goto err_free_keystore_name;
             }
-- 
2.43.0


From 360ee08fca6e936f43865fc36cefeedc6f50c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 40/42] fix: do not use an unopened origin package in transport
 operations

---
 src/transport.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 8b1a6c2..119eabc 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -51,7 +51,7 @@ int action_transport(int argc, char **argv)
 
     while ((opt = getopt_long(argc,
                               argv,
-                              "hvao:s:O:e:d:EGr:",
+                              "hvao:s:O:e:d:EDGr:",
                               long_options,
                               &long_index)) != -1) {
         switch (opt) {
@@ -114,6 +114,8 @@ int action_transport(int argc, char **argv)
     struct bpak_package input;
     struct bpak_package output;
     struct bpak_package origin;
+    struct bpak_package *origin_ptr = NULL;
+    bool output_open = false;
 
     rc = bpak_pkg_open(&input, filename, "rb+");
 
@@ -127,8 +129,11 @@ int action_transport(int argc, char **argv)
 
         if (rc != BPAK_OK) {
             fprintf(stderr, "Error: Could not open package %s\n", origin_file);
-            return rc;
+            origin_file = NULL;
+            goto err_out;
         }
+
+        origin_ptr = &origin;
     }
 
     if ((encode_flag || decode_flag) && !output_file) {
@@ -146,15 +151,17 @@ int action_transport(int argc, char **argv)
                     output_file);
             goto err_out;
         }
+
+        output_open = true;
     }
 
     if (encode_flag) {
-        rc = bpak_pkg_transport_encode(&input, &output, &origin);
+        rc = bpak_pkg_transport_encode(&input, &output, origin_ptr);
     } else if (decode_flag) {
         rc = bpak_pkg_transport_decode(
             &input, /* Input package or 'patch' */
             &output,
-            &origin); /* Origin data to use for patch operation*/
+            origin_ptr); /* Origin data to use for patch operation*/
     } else if (add_flag && encoder_alg && decoder_alg) {
         rc = bpak_add_transport_meta(&input.header,
                                      part_ref,
@@ -183,5 +190,9 @@ err_out:
         bpak_pkg_close(&origin);
     }
 
+    if (output_open) {
+        bpak_pkg_close(&output);
+    }
+
     return rc;
 }
-- 
2.43.0


From 19f99eca709117788bb2b6f842667cd8ac718f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 41/42] fix: compare packages of different contents

---
 src/compare.c | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/compare.c b/src/compare.c
index b550cd3..9be314a 100644
--- a/src/compare.c
+++ b/src/compare.c
@@ -120,7 +120,7 @@ int action_compare(int argc, char **argv)
     printf("-   : Exists in file 1 but not in file 2\n");
     printf("*   : Exists in both but data differs\n\n");
 
-    char string_output[64];
+    char string_output[128];
     struct bpak_header *h1p = &h1;
     struct bpak_header *h2p = &h2;
     struct bpak_meta_header *meta = NULL;
@@ -151,15 +151,12 @@ int action_compare(int argc, char **argv)
         rc = bpak_get_meta(h2p, m->id, m->part_id_ref, &meta);
 
         /* Missing in file 2? */
-        if (rc != BPAK_OK)
+        if (rc != BPAK_OK) {
             removed = true;
+        } else {
+            data2 = bpak_get_meta_ptr(h2p, meta, char);
 
-        data2 = bpak_get_meta_ptr(h2p, meta, char);
-
-        if (!data1 || !data2) {
-            removed = true;
-        } else if (rc == BPAK_OK) {
-            if (memcmp(data1, data2, m->size) != 0)
+            if (m->size != meta->size || memcmp(data1, data2, m->size) != 0)
                 change = true;
         }
 
@@ -187,13 +184,6 @@ int action_compare(int argc, char **argv)
         if (!m->id)
             continue;
 
-        data1 = NULL;
-        data2 = NULL;
-        change = false;
-        removed = false;
-
-        data1 = bpak_get_meta_ptr(h2p, m, char);
-
         rc = bpak_get_meta(h1p, m->id, m->part_id_ref, &meta);
 
         /* Missing in file 1? */
@@ -239,7 +229,7 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 rc = fseek(fp2, bpak_part_offset(h2p, p2), SEEK_SET);
@@ -247,11 +237,17 @@ int action_compare(int argc, char **argv)
                 if (rc != 0) {
                     fprintf(stderr, "Error: Seek failed\n");
                     rc = -BPAK_SEEK_ERROR;
-                    break;
+                    goto err_close_fp2_out;
                 }
 
                 size_t data_to_compare = bpak_part_size(p);
 
+                /* Data of different sizes can not be the same */
+                if (bpak_part_size(p2) != data_to_compare) {
+                    change = true;
+                    data_to_compare = 0;
+                }
+
                 while (data_to_compare) {
                     size_t chunk = (data_to_compare > sizeof(chunk1))
                                        ? sizeof(chunk1)
@@ -318,7 +314,7 @@ int action_compare(int argc, char **argv)
 
             if (rc != BPAK_OK) {
                 printf(RED_YL);
-                printf("-");
+                printf("+");
 
                 if (p->flags & BPAK_FLAG_EXCLUDE_FROM_HASH)
                     flags_str[0] = 'h';
@@ -347,6 +343,9 @@ int action_compare(int argc, char **argv)
         }
     }
 
+    /* Differences are no errors */
+    rc = BPAK_OK;
+
 err_close_fp2_out:
     fclose(fp2);
 err_close_fp1_out:
-- 
2.43.0


From d6b3e88c0716791c9fec660d7c47108651af5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:30 +0000
Subject: [PATCH 42/42] fix: do not replace the header of a package that can
 not be read

---
 lib/pkg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/pkg.c b/lib/pkg.c
index 8173ca3..3b8dd3d 100644
--- a/lib/pkg.c
+++ b/lib/pkg.c
@@ -46,6 +46,12 @@ BPAK_EXPORT int bpak_pkg_open(struct bpak_package *pkg, const char *filename,
 
     size_t read_bytes = fread(&pkg->header, 1, sizeof(pkg->header), pkg->fp);
 
+    /* Created files are empty and may not be readable */
+    if (ferror(pkg->fp) && mode[0] != 'w') {
+        rc = -BPAK_READ_ERROR;
+        goto err_close_io;
+    }
+
     if (read_bytes != 0 && read_bytes != sizeof(pkg->header)) {
         rc = -BPAK_SIZE_ERROR;
         goto err_close_io;
-- 
2.43.0

