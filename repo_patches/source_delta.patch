From 6aa7ffcf5be915586e2a0232833e64107a136eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 01/45] fix: mbus_frame_verify accepts a valid ACK frame and
 rejects an invalid one

---
 mbus/mbus-protocol.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 697d1a8..a962bd0 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -352,7 +352,15 @@ mbus_frame_verify(mbus_frame *frame)
         switch (frame->type)
         {
             case MBUS_FRAME_TYPE_ACK:
-                return frame->start1 == MBUS_FRAME_ACK_START;
+                if (frame->start1 != MBUS_FRAME_ACK_START)
+                {
+                    snprintf(error_str, sizeof(error_str), "No frame start");
+
+                    return -1;
+                }
+
+                // a single character, nothing else to verify
+                return 0;
 
             case MBUS_FRAME_TYPE_SHORT:
                 if(frame->start1 != MBUS_FRAME_SHORT_START)
-- 
2.43.0


From 3a4fc475c458c0835ce6fb690988fd0575e4ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 02/45] fix: reserve room for the terminator of a custom VIF of
 maximum length

---
 mbus/mbus-protocol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 5933381..67a66f0 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -153,7 +153,7 @@ typedef struct _mbus_value_information_block {
         unsigned char vife[MBUS_VALUE_INFO_BLOCK_VIFE_SIZE];
         size_t  nvife;
 
-        unsigned char custom_vif[MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE];
+        unsigned char custom_vif[MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE + 1]; // with terminating zero
 
 } mbus_value_information_block;
 
-- 
2.43.0


From 09f109e2361658c488fbd37bbdc4c044b9b42185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 03/45] fix: make the record data large enough for the longest
 manufacturer specific data

---
 mbus/mbus-protocol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 67a66f0..094e888 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -168,7 +168,7 @@ typedef struct _mbus_data_record {
 
     mbus_data_record_header drh;
 
-    unsigned char data[234];
+    unsigned char data[240]; // up to 239 bytes of manufacturer specific data
     size_t data_len;
 
     time_t timestamp;
-- 
2.43.0


From de6ed9e725470ce030341116a5e63c69288eba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 04/45] fix: do not read beyond the end of the frame data when
 a record is truncated

---
 mbus/mbus-protocol.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index a962bd0..79f691d 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3892,6 +3892,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                     return -1;
                 }
 
+                if (i + 1 >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
+                    return -1;
+                }
+
                 dife = frame->data[i+1];
                 record->drh.dib.dife[record->drh.dib.ndife] = dife;
 
@@ -3900,7 +3907,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             }
             i++;
 
-            if (i > frame->data_size)
+            if (i >= frame->data_size)
             {
                 mbus_data_record_free(record);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
@@ -3916,6 +3923,12 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             {
                 // variable length VIF in ASCII format
                 int var_vif_len;
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at variable length VIF.");
+                    return -1;
+                }
                 var_vif_len = frame->data[i++];
                 if (var_vif_len > MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
@@ -3939,6 +3952,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if (record->drh.vib.vif & MBUS_DIB_VIF_EXTENSION_BIT)
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                    return -1;
+                }
+
                 record->drh.vib.vife[0] = frame->data[i];
                 record->drh.vib.nvife++;
 
@@ -3954,6 +3974,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                         return -1;
                     }
 
+                    if (i + 1 >= frame->data_size)
+                    {
+                        mbus_data_record_free(record);
+                        snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                        return -1;
+                    }
+
                     vife = frame->data[i+1];
                     record->drh.vib.vife[record->drh.vib.nvife] = vife;
 
@@ -3973,6 +4000,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             // re-calculate data length, if of variable length type
             if ((record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_DATA) == 0x0D) // flag for variable length data
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at data.");
+                    return -1;
+                }
+
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-- 
2.43.0


From 5c7f6e77f438fbf2fe7cea3498b78a26aaf9f9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 05/45] fix: mbus_data_bcd_encode writes the byte order that
 mbus_data_bcd_decode reads

BCD data is transmitted least significant byte first and the decoder and
the sign nibble of the encoder follow that, but the encoder wrote the
digits most significant byte first. Also encode INT_MIN without overflow.
---
 mbus/mbus-protocol.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 79f691d..07ee92a 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -466,23 +466,23 @@ mbus_frame_verify(mbus_frame *frame)
 int
 mbus_data_bcd_encode(unsigned char *bcd_data, size_t bcd_data_size, int value)
 {
-    int v0, v1, v2, x1, x2;
+    unsigned int v0, v1, v2, x1, x2;
     size_t i;
 
     if (bcd_data && bcd_data_size)
     {
-        v2 = abs(value);
+        v2 = (value < 0) ? 0u - (unsigned int) value : (unsigned int) value;
 
         for (i = 0; i < bcd_data_size; i++)
         {
             v0 = v2;
-            v1 = (int)(v0 / 10);
-            v2 = (int)(v1 / 10);
+            v1 = v0 / 10;
+            v2 = v1 / 10;
 
             x1 = v0 - v1 * 10;
             x2 = v1 - v2 * 10;
 
-            bcd_data[bcd_data_size-1-i] = (x2 << 4) | x1;
+            bcd_data[i] = (x2 << 4) | x1;
         }
 
         if (value < 0)
-- 
2.43.0


From 0471b4ee92e1556654f41c71c1a1e1a585a950e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 06/45] fix: mbus_data_bcd_decode does not read before empty
 data

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 07ee92a..0210d58 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -507,7 +507,7 @@ mbus_data_bcd_decode(unsigned char *bcd_data, size_t bcd_data_size)
     long long val = 0;
     size_t i;
 
-    if (bcd_data)
+    if (bcd_data && bcd_data_size)
     {
         for (i = bcd_data_size; i > 0; i--)
         {
-- 
2.43.0


From 145318f535ef71eedea23397ed3da0df125b3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 07/45] fix: render manufacturer specific data in the order of
 transmission

The byte order of variable-length binary values was also applied to
manufacturer specific data, which has no such order: the stored XML of
the test frames shows it as transmitted.
---
 mbus/mbus-protocol-aux.c |  2 +-
 mbus/mbus-protocol.c     | 33 +++++++++++++++++++++++++++++++--
 mbus/mbus-protocol.h     |  1 +
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ccf4798..75d39f1 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1022,7 +1022,7 @@ int mbus_variable_value_decode(mbus_data_record *record, double *value_out_real,
                     return -1;
                 }
                 *value_out_str_size = 3 * record->data_len;
-                mbus_data_bin_decode((unsigned char*)(*value_out_str), record->data, record->data_len, (3 * record->data_len + 1));
+                mbus_data_manufacturer_specific_decode((unsigned char*)(*value_out_str), record->data, record->data_len, (3 * record->data_len + 1));
                 result = 0;
                 break;
 
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 0210d58..90878ef 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -769,7 +769,36 @@ mbus_data_str_decode(unsigned char *dst, const unsigned char *src, size_t len)
 
 //------------------------------------------------------------------------------
 ///
-/// Decode binary data.
+/// Decode manufacturer specific data (in the order of transmission).
+///
+//------------------------------------------------------------------------------
+void
+mbus_data_manufacturer_specific_decode(unsigned char *dst, const unsigned char *src, size_t len, size_t max_len)
+{
+    size_t i, pos;
+
+    pos = 0;
+
+    if (src && dst)
+    {
+        for (i = 0; (i < len) && ((pos+3) < max_len); i++)
+        {
+            pos += snprintf(&dst[pos], max_len - pos, "%.2X ", src[i]);
+        }
+
+        if (pos > 0)
+        {
+            // remove last space
+            pos--;
+        }
+
+        dst[pos] = '\0';
+    }
+}
+
+//------------------------------------------------------------------------------
+///
+/// Decode binary data (least significant byte transmitted first).
 ///
 //------------------------------------------------------------------------------
 void
@@ -3394,7 +3423,7 @@ mbus_data_record_decode(mbus_data_record *record)
 
             case 0x0F: // special functions
 
-                mbus_data_bin_decode(buff, record->data, record->data_len, sizeof(buff));
+                mbus_data_manufacturer_specific_decode(buff, record->data, record->data_len, sizeof(buff));
                 break;
 
             case 0x0D: // variable length
diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 094e888..2129edb 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -642,6 +642,7 @@ void mbus_data_tm_decode(struct tm *t, unsigned char *t_data, size_t t_data_size
 
 void mbus_data_str_decode(unsigned char *dst, const unsigned char *src, size_t len);
 
+void mbus_data_manufacturer_specific_decode(unsigned char *dst, const unsigned char *src, size_t len, size_t max_len);
 void mbus_data_bin_decode(unsigned char *dst, const unsigned char *src, size_t len, size_t max_len);
 
 const char *mbus_data_fixed_medium(mbus_data_fixed *data);
-- 
2.43.0


From 00c759482f09c5927b9f89d79dcf3a898213f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 08/45] fix: release the records parsed so far when variable
 data turns out malformed

They were left in the caller's data structure, which leaked them in
mbus_frame_xml and left a stale pointer behind if the header was short.
---
 mbus/mbus-protocol.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 90878ef..5de5b77 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3821,6 +3821,17 @@ mbus_data_fixed_parse(mbus_frame *frame, mbus_data_fixed *data)
 }
 
 
+//------------------------------------------------------------------------------
+/// Release the records of variable-length data that could not be parsed
+//------------------------------------------------------------------------------
+static void
+mbus_data_variable_clear(mbus_data_variable *data)
+{
+    mbus_data_record_free(data->record);
+    data->record = NULL;
+    data->nrecords = 0;
+}
+
 //------------------------------------------------------------------------------
 /// Parse the variable-length data of a M-Bus frame
 //------------------------------------------------------------------------------
@@ -3833,6 +3844,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
     if (frame && data)
     {
         // parse header
+        data->record = NULL;
         data->nrecords = 0;
         data->more_records_follow = 0;
         i = MBUS_DATA_VARIABLE_HEADER_LENGTH;
@@ -3857,8 +3869,6 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
         data->header.signature[0]    = frame->data[10];
         data->header.signature[1]    = frame->data[11];
 
-        data->record = NULL;
-
         while (i < frame->data_size)
         {
             // Skip filler dif=2F
@@ -3870,7 +3880,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if ((record = mbus_data_record_new()) == NULL)
             {
-                // clean up...
+                mbus_data_variable_clear(data);
                 return (-2);
             }
 
@@ -3917,6 +3927,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if (record->drh.dib.ndife >= MBUS_DATA_INFO_BLOCK_DIFE_SIZE)
                 {
                     mbus_data_record_free(record);
+                    mbus_data_variable_clear(data);
                     snprintf(error_str, sizeof(error_str), "Too many DIFE.");
                     return -1;
                 }
@@ -3924,6 +3935,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if (i + 1 >= frame->data_size)
                 {
                     mbus_data_record_free(record);
+                    mbus_data_variable_clear(data);
                     snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
                     return -1;
                 }
@@ -3939,6 +3951,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             if (i >= frame->data_size)
             {
                 mbus_data_record_free(record);
+                mbus_data_variable_clear(data);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
                 return -1;
             }
@@ -3955,6 +3968,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if (i >= frame->data_size)
                 {
                     mbus_data_record_free(record);
+                    mbus_data_variable_clear(data);
                     snprintf(error_str, sizeof(error_str), "Premature end of record at variable length VIF.");
                     return -1;
                 }
@@ -3962,6 +3976,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if (var_vif_len > MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
                     mbus_data_record_free(record);
+                    mbus_data_variable_clear(data);
                     snprintf(error_str, sizeof(error_str), "Too long variable length VIF.");
                     return -1;
                 }
@@ -3969,6 +3984,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if (i + var_vif_len > frame->data_size)
                 {
                     mbus_data_record_free(record);
+                    mbus_data_variable_clear(data);
                     snprintf(error_str, sizeof(error_str), "Premature end of record at variable length VIF.");
                     return -1;
                 }
@@ -3984,6 +4000,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if (i >= frame->data_size)
                 {
                     mbus_data_record_free(record);
+                    mbus_data_variable_clear(data);
                     snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
                     return -1;
                 }
@@ -3999,6 +4016,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                     if (record->drh.vib.nvife >= MBUS_VALUE_INFO_BLOCK_VIFE_SIZE)
                     {
                         mbus_data_record_free(record);
+                        mbus_data_variable_clear(data);
                         snprintf(error_str, sizeof(error_str), "Too many VIFE.");
                         return -1;
                     }
@@ -4006,6 +4024,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                     if (i + 1 >= frame->data_size)
                     {
                         mbus_data_record_free(record);
+                        mbus_data_variable_clear(data);
                         snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
                         return -1;
                     }
@@ -4022,6 +4041,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             if (i > frame->data_size)
             {
                 mbus_data_record_free(record);
+                mbus_data_variable_clear(data);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
                 return -1;
             }
@@ -4032,6 +4052,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if (i >= frame->data_size)
                 {
                     mbus_data_record_free(record);
+                    mbus_data_variable_clear(data);
                     snprintf(error_str, sizeof(error_str), "Premature end of record at data.");
                     return -1;
                 }
@@ -4057,6 +4078,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             if (i + record->data_len > frame->data_size)
             {
                 mbus_data_record_free(record);
+                mbus_data_variable_clear(data);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at data.");
                 return -1;
             }
-- 
2.43.0


From 89b1bfa149350cc79dc84a3e56afd6ca73168eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 09/45] fix: mbus_frame_internal_pack packs what was parsed and
 stays within the frame

It wrote a VIF for manufacturer specific data, omitted the text of a
variable length VIF, and wrote beyond the frame if the records did not fit.
---
 mbus/mbus-protocol.c | 46 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 5de5b77..3739749 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4290,6 +4290,7 @@ int
 mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
 {
     mbus_data_record *record;
+    size_t text_len, len;
     int j;
 
     if (frame == NULL || frame_data == NULL)
@@ -4352,6 +4353,30 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
             //
             for (record = frame_data->data_var.record; record; record = record->next)
             {
+                // manufacturer specific data consists of the DIF and the data only
+                int special = (record->drh.dib.dif == MBUS_DIB_DIF_MANUFACTURER_SPECIFIC) ||
+                              (record->drh.dib.dif == MBUS_DIB_DIF_MORE_RECORDS_FOLLOW);
+                // variable length VIF in ASCII format
+                int custom = !special && ((record->drh.vib.vif & MBUS_DIB_VIF_WITHOUT_EXTENSION) == 0x7C);
+
+                text_len = custom ? strlen((const char *) record->drh.vib.custom_vif) : 0;
+
+                len = 1 + record->data_len;
+                if (!special)
+                {
+                    len += record->drh.dib.ndife + 1 + record->drh.vib.nvife;
+                }
+                if (custom)
+                {
+                    len += 1 + text_len;
+                }
+
+                if (len > sizeof(frame->data) - frame->data_size)
+                {
+                    snprintf(error_str, sizeof(error_str), "Data records do not fit into the frame.");
+                    return -3;
+                }
+
                 // pack DIF
                 if (parse_debug)
                     printf("%s: packing DIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
@@ -4362,12 +4387,23 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
                 }
 
                 // pack VIF
-                if (parse_debug)
-                    printf("%s: packing VIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
-                frame->data[frame->data_size++] = record->drh.vib.vif;
-                for (j = 0; j < record->drh.vib.nvife; j++)
+                if (!special)
                 {
-                    frame->data[frame->data_size++] = record->drh.vib.vife[j];
+                    if (parse_debug)
+                        printf("%s: packing VIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
+                    frame->data[frame->data_size++] = record->drh.vib.vif;
+                    if (custom)
+                    {
+                        frame->data[frame->data_size++] = text_len;
+                        while (text_len > 0)
+                        {
+                            frame->data[frame->data_size++] = record->drh.vib.custom_vif[--text_len];
+                        }
+                    }
+                    for (j = 0; j < record->drh.vib.nvife; j++)
+                    {
+                        frame->data[frame->data_size++] = record->drh.vib.vife[j];
+                    }
                 }
 
                 // pack data
-- 
2.43.0


From 282394cd00fc93661496c3211add7a4e9cd8142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 10/45] fix: mbus_frame_xml handles errors in a later telegram

A later telegram that could not be parsed leaked the document, one that
was not variable-length used the released records of the one before, and
a failed allocation while parsing yielded an incomplete document.
---
 mbus/mbus-protocol.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 3739749..f0d5154 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5073,7 +5073,7 @@ mbus_frame_xml(mbus_frame *frame)
     {
         memset((void *)&frame_data, 0, sizeof(mbus_frame_data));
 
-        if (mbus_frame_data_parse(frame, &frame_data) == -1)
+        if (mbus_frame_data_parse(frame, &frame_data) != 0)
         {
             mbus_error_str_set("M-bus data parse error.");
             return NULL;
@@ -5156,9 +5156,13 @@ mbus_frame_xml(mbus_frame *frame)
 
             for (iter = frame->next; iter; iter = iter->next, frame_cnt++)
             {
-                if (mbus_frame_data_parse(iter, &frame_data) == -1)
+                // an error or fixed-length telegram contributes no records
+                frame_data.data_var.record = NULL;
+
+                if (mbus_frame_data_parse(iter, &frame_data) != 0)
                 {
                     mbus_error_str_set("M-bus variable data parse error.");
+                    free(buff);
                     return NULL;
                 }
 
-- 
2.43.0


From be888ab2bca33255802e1222fc5ab19bb423acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 11/45] fix: keep enough room for the largest data record when
 generating XML

A record with a long custom unit and a long text takes more than 1024
bytes, so that the document was written beyond its buffer.
---
 mbus/mbus-protocol-aux.c | 2 +-
 mbus/mbus-protocol.c     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 75d39f1..a679cec 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1414,7 +1414,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
         {
             norm_record = mbus_parse_variable_record(record);
 
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < 4096)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index f0d5154..c7ee9ed 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4893,7 +4893,7 @@ mbus_data_variable_xml(mbus_data_variable *data)
 
         for (record = data->record, i = 0; record; record = record->next, i++)
         {
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < 4096)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
@@ -5127,7 +5127,7 @@ mbus_frame_xml(mbus_frame *frame)
             // record count as record ID in the XML output
             for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
             {
-                if ((buff_size - len) < 1024)
+                if ((buff_size - len) < 4096)
                 {
                     buff_size *= 2;
                     new_buff = (char*) realloc(buff,buff_size);
@@ -5170,7 +5170,7 @@ mbus_frame_xml(mbus_frame *frame)
                 // record count as record ID in the XML output
                 for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
                 {
-                    if ((buff_size - len) < 1024)
+                    if ((buff_size - len) < 4096)
                     {
                         buff_size *= 2;
                         new_buff = (char*) realloc(buff,buff_size);
-- 
2.43.0


From 4e578e1f89ce9b1cd14ac707f40cb8ff875600a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 12/45] fix: do not truncate long units and long escaped texts

A custom unit may take 128 characters plus prefix, and every character of
a text of up to 191 characters may be escaped with 6 characters.
---
 mbus/mbus-protocol-aux.c | 2 +-
 mbus/mbus-protocol.c     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index a679cec..637676f 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1393,7 +1393,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
     mbus_data_record *record;
     mbus_record *norm_record;
     char *buff = NULL, *new_buff = NULL;
-    char str_encoded[768] = "";
+    char str_encoded[2048] = "";
     size_t len = 0, buff_size = 8192;
     size_t i;
 
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index c7ee9ed..d1542b7 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3456,7 +3456,7 @@ mbus_data_record_decode(mbus_data_record *record)
 const char *
 mbus_data_record_unit(mbus_data_record *record)
 {
-    static char buff[128];
+    static char buff[256];
 
     if (record)
     {
@@ -4756,7 +4756,7 @@ char *
 mbus_data_variable_header_xml(mbus_data_variable_header *header)
 {
     static char buff[8192];
-    char str_encoded[768];
+    char str_encoded[2048];
     size_t len = 0;
 
     if (header)
@@ -4794,7 +4794,7 @@ char *
 mbus_data_variable_record_xml(mbus_data_record *record, int record_cnt, int frame_cnt, mbus_data_variable_header *header)
 {
     static char buff[8192];
-    char str_encoded[768];
+    char str_encoded[2048];
     size_t len = 0;
     struct tm * timeinfo;
     char timestamp[22];
-- 
2.43.0


From e12ae41ef4672c4b2b2862bfa0c6fb627b15ef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 13/45] fix: storage number of records with eight and more
 DIFEs

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index d1542b7..6bea4bc 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3502,7 +3502,7 @@ long mbus_data_record_storage_number(mbus_data_record *record)
 
         for (i=0; i<record->drh.dib.ndife; i++)
         {
-            result |= (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
+            result |= (long) (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
             bit_index += 4;
         }
 
-- 
2.43.0


From 706fb3ceae6a633cf402e6511206f29a75797597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 14/45] fix: mbus_frame_print prints frames of maximum length
 and reports failure to pack

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 6bea4bc..ed6a6ac 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4446,7 +4446,7 @@ int
 mbus_frame_print(mbus_frame *frame)
 {
     mbus_frame *iter;
-    unsigned char data_buff[256];
+    unsigned char data_buff[MBUS_FRAME_DATA_LENGTH + MBUS_FRAME_LONG_BASE_SIZE];
     int len, i;
 
     if (frame == NULL)
@@ -4454,7 +4454,7 @@ mbus_frame_print(mbus_frame *frame)
 
     for (iter = frame; iter; iter = iter->next)
     {
-        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) == -1)
+        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) < 0)
         {
             return -2;
         }
-- 
2.43.0


From 3690ca3633006f30e05d173937f569d725de466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 15/45] fix: mbus_frame_get_secondary_address without a frame
 or without memory

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index ed6a6ac..3777566 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5317,7 +5317,7 @@ char *
 mbus_frame_get_secondary_address(mbus_frame *frame)
 {
     static char addr[32];
-    mbus_frame_data *data;
+    mbus_frame_data *data = NULL;
     unsigned long id;
 
     if (frame == NULL || (data = mbus_frame_data_new()) == NULL)
@@ -5335,7 +5335,7 @@ mbus_frame_get_secondary_address(mbus_frame *frame)
         return NULL;
     }
 
-    if (mbus_frame_data_parse(frame, data) == -1)
+    if (mbus_frame_data_parse(frame, data) != 0)
     {
         mbus_frame_data_free(data);
         return NULL;
-- 
2.43.0


From 9812af6999aa63c896f229a5c1ca2031f8a80a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 16/45] fix: select a secondary address with the digits A to E
 in its identification

They are valid in a secondary address and reported for slaves that have
them, but were packed as 1 to 5.
---
 mbus/mbus-protocol.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 3777566..ba19bfd 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5408,14 +5408,9 @@ mbus_frame_select_secondary_pack(mbus_frame *frame, char *address)
     j = 3; k = 1;
     for (i = 0; i < 8; i++)
     {
-        if (address[i] == 'F' || address[i] == 'f')
-        {
-            frame->data[j] |= 0x0F << (4 * k--);
-        }
-        else
-        {
-            frame->data[j] |= (0x0F & (address[i] - '0')) << (4 * k--);
-        }
+        tmp[0] = address[i]; tmp[1] = 0;
+        val = strtol(tmp, NULL, 16);
+        frame->data[j] |= (0x0F & val) << (4 * k--);
 
         if (k < 0)
         {
-- 
2.43.0


From d6fccbe88c6810d71e2d28b2580bcc84f0002976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 17/45] fix: normalized XML of application errors

---
 mbus/mbus-protocol-aux.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 637676f..96285e7 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1487,6 +1487,11 @@ mbus_frame_data_xml_normalized(mbus_frame_data *data)
 {
     if (data)
     {
+        if (data->type == MBUS_DATA_TYPE_ERROR)
+        {
+            return mbus_data_error_xml(data->error);
+        }
+
         if (data->type == MBUS_DATA_TYPE_FIXED)
         {
             return mbus_data_fixed_xml(&(data->data_fix));
-- 
2.43.0


From 08d381930beceab7c18b0d3410358658334b3590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 18/45] fix: memory leak if the unit of a text or date record
 can not be normalized

---
 mbus/mbus-protocol-aux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 96285e7..92d6475 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1361,6 +1361,7 @@ mbus_parse_variable_record(mbus_data_record *data)
         if (mbus_vib_unit_normalize(&(data->drh.vib), value_out_real, &(record->unit), &real_val, &(record->quantity)) != 0)
         {
             MBUS_ERROR("%s: problem with mbus_vib_unit_normalize\n", __PRETTY_FUNCTION__);
+            free(value_out_str);
             mbus_record_free(record);
             record = NULL;
             return NULL;
-- 
2.43.0


From 7569dcf046cee89026435dceafd7d871e0592731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 19/45] fix: units and exponent of extended VIFs

Energy in GJ had no unit, power in GJ/h had the unit J and the second
cumul. count max power the exponent of the first.
---
 mbus/mbus-protocol-aux.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 92d6475..b8ec0d8 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -491,8 +491,8 @@ mbus_variable_vif vif_table[] = {
     { 0x207, 1.0e0,  "Reserved", "Reserved" },
 
     /* E000 100n Energy 10(n-1) GJ 0.1GJ to 1GJ */
-    { 0x208, 1.0e8,  "Reserved", "Energy" },
-    { 0x209, 1.0e9,  "Reserved", "Energy" },
+    { 0x208, 1.0e8,  "J", "Energy" },
+    { 0x209, 1.0e9,  "J", "Energy" },
 
     /* E000 101n Reserved */
     { 0x20A, 1.0e0,  "Reserved", "Reserved" },
@@ -565,8 +565,8 @@ mbus_variable_vif vif_table[] = {
     { 0x22F, 1.0e0, "Reserved", "Reserved" },
 
     /* E011 000n Power 10(n-1) GJ/h 0.1GJ/h to 1GJ/h */
-    { 0x230, 1.0e8, "J", "Power" },
-    { 0x231, 1.0e9, "J", "Power" },
+    { 0x230, 1.0e8, "J/h", "Power" },
+    { 0x231, 1.0e9, "J/h", "Power" },
 
     /* E011 0010 to E101 0111 Reserved */
     { 0x232, 1.0e0, "Reserved", "Reserved" },
@@ -656,7 +656,7 @@ mbus_variable_vif vif_table[] = {
 
     /* E111 1nnn cumul. count max power § 10(nnn-3) W 0.001W to 10000W */
     { 0x278, 1.0e-3, "W", "Cumul count max power" },
-    { 0x279, 1.0e-3, "W", "Cumul count max power" },
+    { 0x279, 1.0e-2, "W", "Cumul count max power" },
     { 0x27A, 1.0e-1, "W", "Cumul count max power" },
     { 0x27B, 1.0e0,  "W", "Cumul count max power" },
     { 0x27C, 1.0e1,  "W", "Cumul count max power" },
-- 
2.43.0


From ceae7afcc8a184c789eda45386871f98240f8b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 20/45] fix: scale of power and volume flow of fixed-length
 data

W*10 to MW*100 were all treated as W, ml/h as ml/h*10, and ml/h*10 was missing.
---
 mbus/mbus-protocol-aux.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index b8ec0d8..87135e1 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -692,14 +692,14 @@ mbus_variable_vif fixed_table[] = {
     { 0x13, 1.0e11,"J", "Energy" },
 
     { 0x14, 1.0e0, "W", "Power" },
-    { 0x15, 1.0e0, "W", "Power" },
-    { 0x16, 1.0e0, "W", "Power" },
-    { 0x17, 1.0e0, "W", "Power" },
-    { 0x18, 1.0e0, "W", "Power" },
-    { 0x19, 1.0e0, "W", "Power" },
-    { 0x1A, 1.0e0, "W", "Power" },
-    { 0x1B, 1.0e0, "W", "Power" },
-    { 0x1C, 1.0e0, "W", "Power" },
+    { 0x15, 1.0e1, "W", "Power" },
+    { 0x16, 1.0e2, "W", "Power" },
+    { 0x17, 1.0e3, "W", "Power" },
+    { 0x18, 1.0e4, "W", "Power" },
+    { 0x19, 1.0e5, "W", "Power" },
+    { 0x1A, 1.0e6, "W", "Power" },
+    { 0x1B, 1.0e7, "W", "Power" },
+    { 0x1C, 1.0e8, "W", "Power" },
 
     { 0x1D, 1.0e3, "J/h", "Energy" },
     { 0x1E, 1.0e4, "J/h", "Energy" },
@@ -721,7 +721,8 @@ mbus_variable_vif fixed_table[] = {
     { 0x2D, 1.0e1, "m^3", "Volume" },
     { 0x2E, 1.0e2, "m^3", "Volume" },
 
-    { 0x2F, 1.0e-5,"m^3/h", "Volume flow" },
+    { 0x2F, 1.0e-6,"m^3/h", "Volume flow" },
+    { 0x30, 1.0e-5,"m^3/h", "Volume flow" },
     { 0x31, 1.0e-4,"m^3/h", "Volume flow" },
     { 0x32, 1.0e-3,"m^3/h", "Volume flow" },
     { 0x33, 1.0e-2,"m^3/h", "Volume flow" },
-- 
2.43.0


From c5e456ece0e7a2ebc6d284df202444e2292d09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 21/45] fix: quantity of fixed-length data in J/h is power

---
 mbus/mbus-protocol-aux.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 87135e1..f65a525 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -701,15 +701,15 @@ mbus_variable_vif fixed_table[] = {
     { 0x1B, 1.0e7, "W", "Power" },
     { 0x1C, 1.0e8, "W", "Power" },
 
-    { 0x1D, 1.0e3, "J/h", "Energy" },
-    { 0x1E, 1.0e4, "J/h", "Energy" },
-    { 0x1F, 1.0e5, "J/h", "Energy" },
-    { 0x20, 1.0e6, "J/h", "Energy" },
-    { 0x21, 1.0e7, "J/h", "Energy" },
-    { 0x22, 1.0e8, "J/h", "Energy" },
-    { 0x23, 1.0e9, "J/h", "Energy" },
-    { 0x24, 1.0e10,"J/h", "Energy" },
-    { 0x25, 1.0e11,"J/h", "Energy" },
+    { 0x1D, 1.0e3, "J/h", "Power" },
+    { 0x1E, 1.0e4, "J/h", "Power" },
+    { 0x1F, 1.0e5, "J/h", "Power" },
+    { 0x20, 1.0e6, "J/h", "Power" },
+    { 0x21, 1.0e7, "J/h", "Power" },
+    { 0x22, 1.0e8, "J/h", "Power" },
+    { 0x23, 1.0e9, "J/h", "Power" },
+    { 0x24, 1.0e10,"J/h", "Power" },
+    { 0x25, 1.0e11,"J/h", "Power" },
 
     { 0x26, 1.0e-6,"m^3", "Volume" },
     { 0x27, 1.0e-5,"m^3", "Volume" },
-- 
2.43.0


From 207e69a581113a31393a5546bc5abd5c07266d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 22/45] fix: units 100 kJ and MJ of fixed-length data were
 exchanged

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index ba19bfd..dd4db4e 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -1592,10 +1592,10 @@ mbus_data_fixed_unit(int medium_unit_byte)
         case 0x0C:
             snprintf(buff, sizeof(buff), "10 kJ");
             break;
-        case 0x0E:
+        case 0x0D:
             snprintf(buff, sizeof(buff), "100 kJ");
             break;
-        case 0x0D:
+        case 0x0E:
             snprintf(buff, sizeof(buff), "MJ");
             break;
         case 0x0F:
-- 
2.43.0


From e3d6ac64ab33e686722f73a3e854cf8a07708f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 23/45] fix: mbus_send_frame without a handle reports failure

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index f65a525..496a2d1 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1745,7 +1745,7 @@ mbus_send_frame(mbus_handle * handle, mbus_frame *frame)
     if (handle == NULL)
     {
         MBUS_ERROR("%s: Invalid M-Bus handle for send.\n", __PRETTY_FUNCTION__);
-        return 0;
+        return -1;
     }
 
     return handle->send(handle, frame);
-- 
2.43.0


From cddf4bd6eac70ebd510d066b808a20f8a8a4d8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 24/45] fix: discard the echo only if a frame has been received

Without a received frame the direction of whatever the frame structure
held before decided whether to receive a second time, which lost the
result of the first attempt.
---
 mbus/mbus-protocol-aux.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 496a2d1..719b3f5 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1697,16 +1697,19 @@ mbus_recv_frame(mbus_handle * handle, mbus_frame *frame)
 
     result = handle->recv(handle, frame);
 
-    switch (mbus_frame_direction(frame))
+    if (result == MBUS_RECV_RESULT_OK)
     {
-        case MBUS_CONTROL_MASK_DIR_M2S:
-            if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
-                result = handle->recv(handle, frame);  // purge echo and retry
-            break;
-        case MBUS_CONTROL_MASK_DIR_S2M:
-            if (handle->purge_first_frame == MBUS_FRAME_PURGE_S2M)
-                result = handle->recv(handle, frame);  // purge echo and retry
-            break;
+        switch (mbus_frame_direction(frame))
+        {
+            case MBUS_CONTROL_MASK_DIR_M2S:
+                if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
+                    result = handle->recv(handle, frame);  // purge echo and retry
+                break;
+            case MBUS_CONTROL_MASK_DIR_S2M:
+                if (handle->purge_first_frame == MBUS_FRAME_PURGE_S2M)
+                    result = handle->recv(handle, frame);  // purge echo and retry
+                break;
+        }
     }
 
     if (frame != NULL)
-- 
2.43.0


From 0caf1de9e4d21c8e65cfd3fad4c4b85a747e7292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 25/45] fix: mbus_sendrecv_request reads out all frames if
 max_frames is 0

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 719b3f5..6c3d60f 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2148,7 +2148,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
             more_frames = 0;
 
             if (reply_data.data_var.more_records_follow &&
-                ((max_frames > 0) && (frame_count < max_frames))) // only readout max_frames
+                ((max_frames <= 0) || (frame_count < max_frames))) // only readout max_frames
             {
                 if (debug)
                     printf("%s: debug: expecting more frames\n", __PRETTY_FUNCTION__);
-- 
2.43.0


From dc2678d5ecae59f4cbc2ce9143797bc09e9cb0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 26/45] fix: mbus_sendrecv_request frees the records of a reply
 once

If an error or fixed-length telegram followed, they were freed again.
---
 mbus/mbus-protocol-aux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 6c3d60f..b54aa45 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2125,7 +2125,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         // We need to parse the data in the received frame to be able to tell
         // if more records are available or not.
         //
-        if (mbus_frame_data_parse(next_frame, &reply_data) == -1)
+        if (mbus_frame_data_parse(next_frame, &reply_data) != 0)
         {
             MBUS_ERROR("%s: M-bus data parse error.\n", __PRETTY_FUNCTION__);
             retval = 1;
@@ -2181,6 +2181,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         {
             // free's up the whole list
             mbus_data_record_free(reply_data.data_var.record);
+            reply_data.data_var.record = NULL;
         }
     }
 
-- 
2.43.0


From 5e553ddea9767aadcd54d983dd52867ab6aeb7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 27/45] fix: mbus_scan_2nd_address_range reports errors below
 the first digit and frees the mask

---
 mbus/mbus-protocol-aux.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index b54aa45..a2d50dc 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2494,7 +2494,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
         if (pos < 15)
         {
             // mask[pos] is not a wildcard -> don't iterate, recursively check pos+1
-            mbus_scan_2nd_address_range(handle, pos+1, mask);
+            if (mbus_scan_2nd_address_range(handle, pos+1, mask) == -1)
+            {
+                free(mask);
+                return -1;
+            }
         }
         else
         {
@@ -2526,7 +2530,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else if (probe_ret == MBUS_PROBE_COLLISION)
             {
                 // collision, more than one device matching, restrict the search mask further
-                mbus_scan_2nd_address_range(handle, pos+1, mask);
+                if (mbus_scan_2nd_address_range(handle, pos+1, mask) == -1)
+                {
+                    free(mask);
+                    return -1;
+                }
             }
             else if (probe_ret == MBUS_PROBE_NOTHING)
             {
@@ -2535,6 +2543,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else // MBUS_PROBE_ERROR
             {
                 MBUS_ERROR("%s: Failed to probe secondary address [%s].\n", __PRETTY_FUNCTION__, mask);
+                free(mask);
                 return -1;
             }
         }
-- 
2.43.0


From aa8a61cf6e89ed7a94b85b02485fdae8eba1340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 28/45] fix: mbus_hex2bin stops at anything but a pair of
 hexadecimal digits

A single digit, a sign or the x of 0x was accepted as part of a byte.
---
 mbus/mbus-protocol-aux.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index a2d50dc..f16133c 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2579,6 +2579,10 @@ mbus_hex2bin(unsigned char * dst, size_t dst_len, const unsigned char * src, siz
         if (isspace(src[i]))
             continue;
 
+        // abort at non hex value
+        if (!isxdigit(src[i]) || !isxdigit(src[i+1]))
+            break;
+
         buf[0] = src[i];
         buf[1] = src[++i];
 
-- 
2.43.0


From 66a0ec06de11d4a336b1fa4c0324f3d95291726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 29/45] fix: a context that is not connected has no file
 descriptor

Disconnecting it closed an arbitrary one.
---
 mbus/mbus-protocol-aux.c | 2 ++
 mbus/mbus-tcp.c          | 1 +
 2 files changed, 3 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index f16133c..19f67f1 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1531,6 +1531,7 @@ mbus_context_serial(const char *device)
 
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
+    handle->fd = -1;
     handle->is_serial = 1;
     handle->purge_first_frame = MBUS_FRAME_PURGE_M2S;
     handle->auxdata = serial_data;
@@ -1579,6 +1580,7 @@ mbus_context_tcp(const char *host, uint16_t port)
 
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
+    handle->fd = -1;
     handle->is_serial = 0;
     handle->purge_first_frame = MBUS_FRAME_PURGE_M2S;
     handle->auxdata = tcp_data;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index da7e475..e7e8497 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -74,6 +74,7 @@ mbus_tcp_connect(mbus_handle *handle)
         if (connect(handle->fd, p->ai_addr, p->ai_addrlen) == -1)
         {
             close(handle->fd);
+            handle->fd = -1;
             continue;
         }
 
-- 
2.43.0


From 4847aff893ab0557fb2433ae203817807650309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 30/45] fix: do not send a frame that could not be packed

---
 mbus/mbus-serial.c | 2 +-
 mbus/mbus-tcp.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 5a2a3f3..64b662e 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -242,7 +242,7 @@ mbus_serial_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         fprintf(stderr, "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         return -1;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index e7e8497..c6473c4 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -160,7 +160,7 @@ mbus_tcp_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         snprintf(error_str, sizeof(error_str), "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         mbus_error_str_set(error_str);
-- 
2.43.0


From deb0cdbf2f36017400e7a52916d8a402dc1cefb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 31/45] fix: mbus_data_int_encode extends the sign into fields
 of more than four bytes

---
 mbus/mbus-protocol.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index dd4db4e..a6988e5 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -672,13 +672,15 @@ mbus_data_long_long_decode(unsigned char *int_data, size_t int_data_size, long l
 int
 mbus_data_int_encode(unsigned char *int_data, size_t int_data_size, int value)
 {
-    int i;
+    size_t i;
+    long long rest = value;
 
     if (int_data)
     {
         for (i = 0; i < int_data_size; i++)
         {
-            int_data[i] = (value>>(i*8)) & 0xFF;
+            int_data[i] = rest & 0xFF;
+            rest >>= 8;
         }
 
         return 0;
-- 
2.43.0


From a1ca426fa7bbb8f048cb56c2aba03f90912983aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 32/45] fix: unit of a custom VIF with extensions other than a
 decimal prefix

---
 mbus/mbus-protocol.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index a6988e5..5c176a4 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3141,17 +3141,17 @@ mbus_vib_unit_lookup(mbus_value_information_block *vib)
 
         return mbus_vib_unit_lookup_fd(vib);
     }
-    else if (vib->vif == 0x7C)
+    else if (vib->vif == 0xFC && (vib->vife[0] & 0x78) == 0x70)
     {
         // custom VIF
-        snprintf(buff, sizeof(buff), "%s", vib->custom_vif);
+        n = (vib->vife[0] & 0x07);
+        snprintf(buff, sizeof(buff), "%s %s", mbus_unit_prefix(n-6), vib->custom_vif);
         return buff;
     }
-    else if (vib->vif == 0xFC && (vib->vife[0] & 0x78) == 0x70)
+    else if (vib->vif == 0x7C || vib->vif == 0xFC)
     {
         // custom VIF
-        n = (vib->vife[0] & 0x07);
-        snprintf(buff, sizeof(buff), "%s %s", mbus_unit_prefix(n-6), vib->custom_vif);
+        snprintf(buff, sizeof(buff), "%s", vib->custom_vif);
         return buff;
     }
 
-- 
2.43.0


From 334cba498118de5adf0a1b48ad8963da71d64dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 33/45] fix: mbus_set_primary_address refuses the reserved
 addresses 251 and 252

---
 mbus/mbus-protocol-aux.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 19f67f1..cbdb3b9 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2007,21 +2007,13 @@ mbus_set_primary_address(mbus_handle * handle, int old_address, int new_address)
     /* primary address record, see chapter 6.4.2 */
     unsigned char buffer[3] = { 0x01, 0x7A, new_address };
 
-    if (mbus_is_primary_address(new_address) == 0)
+    /* slaves have the addresses 0..250, the others are reserved */
+    if ((new_address < 0) || (new_address > MBUS_MAX_PRIMARY_SLAVES))
     {
         MBUS_ERROR("%s: invalid address %d\n", __PRETTY_FUNCTION__, new_address);
         return -1;
     }
 
-    switch (new_address)
-    {
-        case MBUS_ADDRESS_NETWORK_LAYER:
-        case MBUS_ADDRESS_BROADCAST_REPLY:
-        case MBUS_ADDRESS_BROADCAST_NOREPLY:
-            MBUS_ERROR("%s: invalid address %d\n", __PRETTY_FUNCTION__, new_address);
-            return -1;
-    }
-
     return mbus_send_user_data_frame(handle, old_address, buffer, sizeof(buffer));
 }
 
-- 
2.43.0


From 818e4cf78fbcac4dccae172e6e550d2e7a64e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 34/45] fix: a failed reception is no answer to a selection or
 an identity request

---
 mbus/mbus-protocol-aux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index cbdb3b9..f6c6255 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2265,7 +2265,7 @@ mbus_select_secondary_address(mbus_handle * handle, const char *mask)
         return MBUS_PROBE_COLLISION;
     }
 
-    if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+    if (ret == MBUS_RECV_RESULT_OK && mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         /* check for more data (collision) */
         if (mbus_purge_frames(handle))
@@ -2334,7 +2334,7 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
                 return MBUS_PROBE_COLLISION;
             }
 
-            if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_LONG)
+            if (ret == MBUS_RECV_RESULT_OK && mbus_frame_type(&reply) == MBUS_FRAME_TYPE_LONG)
             {
                 char *addr = mbus_frame_get_secondary_address(&reply);
 
-- 
2.43.0


From 746f08ab891e63d62ff86930edacb0dfb5865d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 35/45] fix: an acknowledgement or short frame carries no
 application data

---
 mbus/mbus-protocol.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 5c176a4..d872734 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4123,6 +4123,13 @@ mbus_frame_data_parse(mbus_frame *frame, mbus_frame_data *data)
         return -1;
     }
 
+    if (frame->type == MBUS_FRAME_TYPE_ACK || frame->type == MBUS_FRAME_TYPE_SHORT)
+    {
+        // whatever the frame structure still holds from an earlier telegram
+        snprintf(error_str, sizeof(error_str), "Frame without application data.");
+        return -1;
+    }
+
     direction = (frame->control & MBUS_CONTROL_MASK_DIR);
 
     if (direction == MBUS_CONTROL_MASK_DIR_S2M)
-- 
2.43.0


From b24cae6f90185eed788661ca6d540ae4f86ac31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 36/45] fix: scan programs do not take the reply of an earlier
 address for a new one

---
 bin/mbus-serial-scan.c | 2 ++
 bin/mbus-tcp-scan.c    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bin/mbus-serial-scan.c b/bin/mbus-serial-scan.c
index a93d876..1f94a58 100755
--- a/bin/mbus-serial-scan.c
+++ b/bin/mbus-serial-scan.c
@@ -145,6 +145,8 @@ main(int argc, char **argv)
     {
         mbus_frame reply;
 
+        memset((void *)&reply, 0, sizeof(mbus_frame));
+
         ret = ping_address(handle, &reply, address);
 
         if (ret == MBUS_RECV_RESULT_TIMEOUT)
diff --git a/bin/mbus-tcp-scan.c b/bin/mbus-tcp-scan.c
index 3d96194..5a1f7db 100755
--- a/bin/mbus-tcp-scan.c
+++ b/bin/mbus-tcp-scan.c
@@ -125,6 +125,8 @@ main(int argc, char **argv)
     {
         mbus_frame reply;
 
+        memset((void *)&reply, 0, sizeof(mbus_frame));
+
         ret = ping_address(handle, &reply, address);
 
         if (ret == MBUS_RECV_RESULT_TIMEOUT)
-- 
2.43.0


From f26b1d23b736461bb96317453ccf97a9f66dd6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 37/45] fix: programs report a failed reception instead of
 judging an unreceived reply

---
 bin/mbus-serial-select-secondary.c | 6 ++++++
 bin/mbus-serial-set-address.c      | 7 +++++++
 bin/mbus-serial-switch-baudrate.c  | 5 +++++
 bin/mbus-tcp-application-reset.c   | 7 +++++++
 bin/mbus-tcp-select-secondary.c    | 6 ++++++
 5 files changed, 31 insertions(+)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 4c1066b..cb1c585 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -94,6 +94,12 @@ main(int argc, char **argv)
         return 1;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply: %s\n", mbus_error_str());
+        return 1;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         if (mbus_send_request_frame(handle, MBUS_ADDRESS_NETWORK_LAYER) == -1)
diff --git a/bin/mbus-serial-set-address.c b/bin/mbus-serial-set-address.c
index 2ec493c..76ca61f 100644
--- a/bin/mbus-serial-set-address.c
+++ b/bin/mbus-serial-set-address.c
@@ -213,6 +213,13 @@ main(int argc, char **argv)
         mbus_context_free(handle);
         return 1;
     }
+    else if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply from device\n");
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
+    }
     else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr, "Unknown reply:\n");
diff --git a/bin/mbus-serial-switch-baudrate.c b/bin/mbus-serial-switch-baudrate.c
index 52a841f..3027b0b 100755
--- a/bin/mbus-serial-switch-baudrate.c
+++ b/bin/mbus-serial-switch-baudrate.c
@@ -79,6 +79,11 @@ main(int argc, char **argv)
         fprintf(stderr,"No reply from device\n");
         return 1;
     }
+    else if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply from device\n");
+        return 1;
+    }
     else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr,"Unknown reply:\n");
diff --git a/bin/mbus-tcp-application-reset.c b/bin/mbus-tcp-application-reset.c
index 54ca46c..5786fec 100755
--- a/bin/mbus-tcp-application-reset.c
+++ b/bin/mbus-tcp-application-reset.c
@@ -144,6 +144,13 @@ main(int argc, char **argv)
         mbus_context_free(handle);
         return 1;
     }
+    else if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply from device\n");
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
+    }
     else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr,"Unknown reply:\n");
diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index 92605c6..c4f4d6c 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -85,6 +85,12 @@ main(int argc, char **argv)
         return 1;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply: %s\n", mbus_error_str());
+        return 1;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         if (mbus_send_request_frame(handle, MBUS_ADDRESS_NETWORK_LAYER) == -1)
-- 
2.43.0


From 28cc011279459b59d96e4e41c6298418c39cf146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 38/45] fix: mbus-serial-select-secondary reports the address
 searched for with option -b

---
 bin/mbus-serial-select-secondary.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index cb1c585..c661d22 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -84,13 +84,13 @@ main(int argc, char **argv)
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
     {
-        fprintf(stderr,"No reply from device with secondary address %s: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"No reply from device with secondary address %s: %s\n", addr, mbus_error_str());
         return 1;
     }
 
     if (ret == MBUS_RECV_RESULT_INVALID)
     {
-        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", addr, mbus_error_str());
         return 1;
     }
 
@@ -117,7 +117,7 @@ main(int argc, char **argv)
         if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
         {
             printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   argv[2], mbus_frame_get_secondary_address(&reply));
+                   addr, mbus_frame_get_secondary_address(&reply));
         }
     }
     else
-- 
2.43.0


From 0abaf54334c41a508ebe0c6cca44087bd95c2908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 39/45] fix: mbus-serial-scan-secondary refuses unknown options

---
 bin/mbus-serial-scan-secondary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/mbus-serial-scan-secondary.c b/bin/mbus-serial-scan-secondary.c
index c1ad32d..9011d02 100755
--- a/bin/mbus-serial-scan-secondary.c
+++ b/bin/mbus-serial-scan-secondary.c
@@ -99,7 +99,7 @@ main(int argc, char **argv)
         device = argv[3];
         addr_mask = strdup(argv[4]);
     }
-    else if (argc == 6 && strcmp(argv[1], "-d") == 0)
+    else if (argc == 6 && strcmp(argv[1], "-d") == 0 && strcmp(argv[2], "-b") == 0)
     {
         baudrate = atol(argv[3]);
         device = argv[4];
-- 
2.43.0


From 50eb62bc3395ad66f09b31dbd4cea79ab630e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 40/45] fix: secondary scan programs report a failed scan

---
 bin/mbus-serial-scan-secondary.c | 9 ++++++++-
 bin/mbus-tcp-scan-secondary.c    | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/bin/mbus-serial-scan-secondary.c b/bin/mbus-serial-scan-secondary.c
index 9011d02..a123112 100755
--- a/bin/mbus-serial-scan-secondary.c
+++ b/bin/mbus-serial-scan-secondary.c
@@ -172,7 +172,14 @@ main(int argc, char **argv)
         return 1;
     }
 
-    mbus_scan_2nd_address_range(handle, 0, addr_mask);
+    if (mbus_scan_2nd_address_range(handle, 0, addr_mask) == -1)
+    {
+        fprintf(stderr, "Scan failed: %s\n", mbus_error_str());
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        free(addr_mask);
+        return 1;
+    }
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
diff --git a/bin/mbus-tcp-scan-secondary.c b/bin/mbus-tcp-scan-secondary.c
index dd6131a..6e579e0 100755
--- a/bin/mbus-tcp-scan-secondary.c
+++ b/bin/mbus-tcp-scan-secondary.c
@@ -101,7 +101,14 @@ main(int argc, char **argv)
         return 1;
     }
 
-    mbus_scan_2nd_address_range(handle, 0, addr_mask);
+    if (mbus_scan_2nd_address_range(handle, 0, addr_mask) == -1)
+    {
+        fprintf(stderr, "Scan failed: %s\n", mbus_error_str());
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        free(addr_mask);
+        return 1;
+    }
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
-- 
2.43.0


From 44f6b3cbf0595b5c1b108c40c450fae8f4e1b1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 41/45] fix: mbus-*-request-data prints nothing if memory is
 short while decoding

---
 bin/mbus-serial-request-data.c | 2 +-
 bin/mbus-tcp-request-data.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/mbus-serial-request-data.c b/bin/mbus-serial-request-data.c
index 20e3fa6..c291d32 100755
--- a/bin/mbus-serial-request-data.c
+++ b/bin/mbus-serial-request-data.c
@@ -191,7 +191,7 @@ main(int argc, char **argv)
     //
     // parse data
     //
-    if (mbus_frame_data_parse(&reply, &reply_data) == -1)
+    if (mbus_frame_data_parse(&reply, &reply_data) != 0)
     {
         fprintf(stderr, "M-bus data parse error: %s\n", mbus_error_str());
         mbus_disconnect(handle);
diff --git a/bin/mbus-tcp-request-data.c b/bin/mbus-tcp-request-data.c
index 91ff0c0..66779f5 100755
--- a/bin/mbus-tcp-request-data.c
+++ b/bin/mbus-tcp-request-data.c
@@ -134,7 +134,7 @@ main(int argc, char **argv)
         mbus_frame_print(&reply);
     }
 
-    if (mbus_frame_data_parse(&reply, &reply_data) == -1)
+    if (mbus_frame_data_parse(&reply, &reply_data) != 0)
     {
         fprintf(stderr, "M-bus data parse error: %s\n", mbus_error_str());
         return 1;
-- 
2.43.0


From b15998b9a1ac6465e7708c7675f5ac3d041de983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:12 +0000
Subject: [PATCH 42/45] fix: mbus-serial-set-address refuses the reserved
 addresses before using the bus

---
 bin/mbus-serial-set-address.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/mbus-serial-set-address.c b/bin/mbus-serial-set-address.c
index 76ca61f..59c97af 100644
--- a/bin/mbus-serial-set-address.c
+++ b/bin/mbus-serial-set-address.c
@@ -93,7 +93,7 @@ main(int argc, char **argv)
         return 0;
     }
 
-    if (mbus_is_primary_address(new_address) == 0)
+    if (new_address < 0 || new_address > MBUS_MAX_PRIMARY_SLAVES)
     {
         fprintf(stderr, "Invalid new primary address\n");
         return -1;
-- 
2.43.0


From 6fff91480a187a0732947ee32f0d12ea5c7cce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 43/45] fix: refuse a normalized record whose unit or quantity
 could not be allocated

---
 mbus/mbus-protocol-aux.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index f6c6255..7c445df 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1268,6 +1268,13 @@ mbus_parse_fixed_record(char status_byte, char medium_unit, unsigned char *data)
         return NULL;
     }
 
+    if (record->unit == NULL || record->quantity == NULL)
+    {
+        MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+        mbus_record_free(record);
+        return NULL;
+    }
+
     return record;
 }
 
@@ -1367,6 +1374,14 @@ mbus_parse_variable_record(mbus_data_record *data)
             record = NULL;
             return NULL;
         }
+
+        if (record->unit == NULL || record->quantity == NULL)
+        {
+            MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+            free(value_out_str);
+            mbus_record_free(record);
+            return NULL;
+        }
         MBUS_DEBUG("record->unit = %s \n", record->unit);
         MBUS_DEBUG("real_val = %lf \n", real_val);
 
-- 
2.43.0


From eeab0c5f5421fbbf49c480603cb504d956c5c7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 44/45] fix: printing a record names its function as decoded
 (maximum and minimum were shown as error state)

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index d872734..ea65916 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4555,7 +4555,7 @@ mbus_data_variable_print(mbus_data_variable *data)
             printf("DIF               = %.2X\n", record->drh.dib.dif);
             printf("DIF.Extension     = %s\n",  (record->drh.dib.dif & MBUS_DIB_DIF_EXTENSION_BIT) ? "Yes":"No");
             printf("DIF.StorageNumber = %d\n",  (record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_STORAGE_NO) >> 6);
-            printf("DIF.Function      = %s\n",  (record->drh.dib.dif & 0x30) ? "Value during error state" : "Instantaneous value" );
+            printf("DIF.Function      = %s\n",  mbus_data_record_function(record));
             printf("DIF.Data          = %.2X\n", record->drh.dib.dif & 0x0F);
 
             // VENDOR SPECIFIC
-- 
2.43.0


From f21e648e2edf92235329fd7674bbe78ac31f1fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:14 +0000
Subject: [PATCH 45/45] Revert "fix: scan programs do not take the reply of an
 earlier address for a new one"

ping_address already clears the reply, so there was nothing to repair.
---
 bin/mbus-serial-scan.c | 2 --
 bin/mbus-tcp-scan.c    | 2 --
 2 files changed, 4 deletions(-)

diff --git a/bin/mbus-serial-scan.c b/bin/mbus-serial-scan.c
index 1f94a58..a93d876 100755
--- a/bin/mbus-serial-scan.c
+++ b/bin/mbus-serial-scan.c
@@ -145,8 +145,6 @@ main(int argc, char **argv)
     {
         mbus_frame reply;
 
-        memset((void *)&reply, 0, sizeof(mbus_frame));
-
         ret = ping_address(handle, &reply, address);
 
         if (ret == MBUS_RECV_RESULT_TIMEOUT)
diff --git a/bin/mbus-tcp-scan.c b/bin/mbus-tcp-scan.c
index 5a1f7db..3d96194 100755
--- a/bin/mbus-tcp-scan.c
+++ b/bin/mbus-tcp-scan.c
@@ -125,8 +125,6 @@ main(int argc, char **argv)
     {
         mbus_frame reply;
 
-        memset((void *)&reply, 0, sizeof(mbus_frame));
-
         ret = ping_address(handle, &reply, address);
 
         if (ret == MBUS_RECV_RESULT_TIMEOUT)
-- 
2.43.0

