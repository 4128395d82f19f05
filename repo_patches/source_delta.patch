From e8c82f80e33eb407d6703a1a0a8f95fe1a9666e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 01/16] fix: never transfer a field that is bigger than its
 chunk

The subtraction was done in size_t, so it wrapped around for chunks that are
smaller than the field and for negative chunk sizes.
---
 src/libiff/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/field.c b/src/libiff/field.c
index 29ccfc8..aea7f23 100644
--- a/src/libiff/field.c
+++ b/src/libiff/field.c
@@ -30,7 +30,7 @@ IFF_Bool IFF_deriveSuccess(const IFF_FieldStatus status)
 
 static IFF_Bool fieldDoesNotFitInChunk(const size_t fieldSize, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
 {
-    return bytesProcessed > chunkSize - fieldSize;
+    return chunkSize < (IFF_Long)fieldSize || bytesProcessed > chunkSize - (IFF_Long)fieldSize;
 }
 
 static void increaseBytesProcessed(IFF_Long *bytesProcessed, const size_t fieldSize)
-- 
2.43.0


From 5658f2f40e063486569843123e23786e71dabf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 02/16] fix: fall back to the global chunk types inside forms
 with their own types

Inside a FORM whose chunk type tables do not link to the global table, nested
group chunks were read as raw chunks.
---
 src/libiff/chunkregistry.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libiff/chunkregistry.c b/src/libiff/chunkregistry.c
index 7de22f7..1381455 100644
--- a/src/libiff/chunkregistry.c
+++ b/src/libiff/chunkregistry.c
@@ -95,8 +95,13 @@ IFF_ChunkType *IFF_findChunkType(const IFF_ChunkRegistry *chunkRegistry, const I
         if(formChunkTypes == NULL)
             result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
         else
+        {
             result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
 
+            if(result == NULL)
+                result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* The FORM does not define it, so try the chunk types that apply everywhere */
+        }
+
         if(result == NULL)
             return chunkRegistry->defaultChunkType;
         else
-- 
2.43.0


From a418153aa431c24c7fd9ba305097c6b61c1a5599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 03/16] fix: print the number of processed bytes instead of a
 pointer in truncation warnings

---
 src/libiff/group.c | 2 +-
 src/libiff/list.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index c180a21..1424e9c 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -89,7 +89,7 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
     }
 
     if(*bytesProcessed > group->chunkSize)
-        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
diff --git a/src/libiff/list.c b/src/libiff/list.c
index bcc75dd..74f7369 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -102,7 +102,7 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     }
 
     if(*bytesProcessed > list->chunkSize)
-        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
-- 
2.43.0


From 11994916cfbc6f2823322f0e9b002341b94fb217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 04/16] fix: skip unknown bytes by reading them

Seeking succeeds beyond the end of a truncated file, does not work on pipes,
and a successful skip was reported as an error.
---
 src/libiff/io.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 9d03487..6bd476f 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -210,20 +210,22 @@ IFF_Bool IFF_skipUnknownBytes(FILE *file, const IFF_ID chunkId, const IFF_Long c
 {
     if(bytesProcessed < chunkSize)
     {
-        long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long i;
 
-        if(fseek(file, bytesToSkip, SEEK_CUR) == 0)
+        for(i = 0; i < bytesToSkip; i++)
         {
-            IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
-            IFF_errorId(chunkId);
-            IFF_error("'\n");
-            return TRUE;
+            if(fgetc(file) == EOF)
+            {
+                IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
+                IFF_errorId(chunkId);
+                IFF_error("'\n");
+                return FALSE;
+            }
         }
-        else
-            return FALSE;
     }
-    else
-        return TRUE;
+
+    return TRUE;
 }
 
 IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
-- 
2.43.0


From 08e0832d3953562d11a655d918422222ef7b747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 05/16] fix: report a failing allocation of zero filler bytes
 and their number correctly

---
 src/libiff/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 6bd476f..9e1d4aa 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -234,11 +234,11 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
     {
         size_t bytesToSkip = chunkSize - bytesProcessed;
         IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
-        IFF_Bool status = fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
+        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
 
         if(!status)
         {
-            IFF_error("Cannot write: %u zero bytes in data chunk: '", bytesToSkip);
+            IFF_error("Cannot write: %u zero bytes in data chunk: '", (unsigned int)bytesToSkip);
             IFF_errorId(chunkId);
             IFF_error("'\n");
         }
-- 
2.43.0


From 0c54d807e08c72f371ea53142dfc22a8b69bacd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 06/16] fix: release a non-conforming input of iffjoin

---
 src/iffjoin/join.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 5b89281..47e4ca7 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -42,6 +42,9 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
         /* Check whether the IFF file is valid */
         if(chunk == NULL || !IFF_check(chunk, NULL))
         {
+            if(chunk != NULL)
+                IFF_free(chunk, NULL);
+
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-- 
2.43.0


From 32203414057baa127abb28ffa070badf1515d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 07/16] fix: report output errors that only show up when
 buffers are flushed

---
 src/libiff/iff.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index d2c3942..b71d95e 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -107,14 +107,32 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
     }
 
     status = IFF_writeFd(file, chunk, chunkRegistry);
-    fclose(file);
+
+    /* Buffered bytes may only be written when the file is closed */
+    if(fclose(file) != 0 && status)
+    {
+        IFF_error("ERROR: cannot write file: %s\n", filename);
+        status = FALSE;
+    }
+
     return status;
 }
 
 IFF_Bool IFF_write(const char *filename, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
     if(filename == NULL)
-        return IFF_writeFd(stdout, chunk, chunkRegistry);
+    {
+        if(!IFF_writeFd(stdout, chunk, chunkRegistry))
+            return FALSE;
+
+        if(fflush(stdout) != 0)
+        {
+            IFF_error("ERROR: cannot write to the standard output\n");
+            return FALSE;
+        }
+
+        return TRUE;
+    }
     else
         return IFF_writeFile(filename, chunk, chunkRegistry);
 }
-- 
2.43.0


From 657e4fae5919adadfda4577a65d840fe8c4f5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 08/16] fix: reject all punctuation marks in form types, not
 only the dot

---
 src/libiff/form.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 788d609..9ebd2c8 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -104,7 +104,7 @@ IFF_Bool IFF_checkFormType(const IFF_ID formType)
     /* A form type is not allowed to have lowercase or puntuaction marks */
     for(i = 0; i < IFF_ID_SIZE; i++)
     {
-        if((formType2[i] >= 0x61 && formType2[i] <= 0x7a) || formType2[i] == '.')
+        if(!((formType2[i] >= 'A' && formType2[i] <= 'Z') || (formType2[i] >= '0' && formType2[i] <= '9') || formType2[i] == ' '))
         {
             IFF_error("No lowercase characters or punctuation marks allowed in a form type ID!\n");
             return FALSE;
-- 
2.43.0


From ca549f922330525faa69635587daafbd9295ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 09/16] fix: refuse negative chunk sizes when reading and
 checking

---
 src/libiff/chunk.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index 18d6a48..db11375 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -74,6 +74,14 @@ IFF_Chunk *IFF_readChunk(FILE *file, const IFF_ID formType, const IFF_ChunkRegis
         || !IFF_readLong(file, &chunkSize, chunkId, "chunkSize"))
         return NULL;
 
+    if(chunkSize < 0)
+    {
+        IFF_error("Negative chunk size: %d of chunk: '", chunkSize);
+        IFF_errorId(chunkId);
+        IFF_error("'\n");
+        return NULL;
+    }
+
     return readChunkBody(file, chunkId, chunkSize, formType, chunkRegistry);
 }
 
@@ -98,6 +106,13 @@ IFF_Bool IFF_checkChunk(const IFF_Chunk *chunk, const IFF_ID formType, const IFF
 {
     if(!IFF_checkId(chunk->chunkId))
         return FALSE;
+    else if(chunk->chunkSize < 0)
+    {
+        IFF_error("Negative chunk size: %d of chunk: '", chunk->chunkSize);
+        IFF_errorId(chunk->chunkId);
+        IFF_error("'\n");
+        return FALSE;
+    }
     else
     {
         IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunk->chunkId);
-- 
2.43.0


From 232f4b5a166516b90813a55c9f0a50aa8a072486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 10/16] fix: release intermediate search results and handle
 failing allocations in searches

---
 src/libiff/form.c  | 36 ++++++++++++++++++++++++++++++++----
 src/libiff/group.c |  4 ++++
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 9ebd2c8..8f5b486 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -195,8 +195,21 @@ IFF_Form **IFF_mergeFormArray(IFF_Form **target, unsigned int *targetLength, IFF
 {
     unsigned int i;
     unsigned int newLength = *targetLength + sourceLength;
+    IFF_Form **result;
 
-    target = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
+    if(sourceLength == 0)
+        return target;
+
+    result = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
+
+    if(result == NULL)
+    {
+        free(target);
+        *targetLength = 0;
+        return NULL;
+    }
+
+    target = result;
 
     for(i = 0; i < sourceLength; i++)
         target[i + *targetLength] = source[i];
@@ -218,8 +231,14 @@ IFF_Form **IFF_searchFormsInForm(IFF_Form *form, const IFF_ID *formTypes, const
         if(form->formType == formType)
         {
             IFF_Form **forms = (IFF_Form**)malloc(sizeof(IFF_Form*));
-            forms[0] = form;
-            *formsLength = 1;
+
+            if(forms == NULL)
+                *formsLength = 0;
+            else
+            {
+                forms[0] = form;
+                *formsLength = 1;
+            }
 
             return forms;
         }
@@ -324,7 +343,16 @@ IFF_Chunk **IFF_getChunksFromForm(const IFF_Form *form, const IFF_ID chunkId, un
     {
         if(form->chunk[i]->chunkId == chunkId)
         {
-            result = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+            IFF_Chunk **newResult = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+
+            if(newResult == NULL)
+            {
+                free(result);
+                *chunksLength = 0;
+                return NULL;
+            }
+
+            result = newResult;
             result[*chunksLength] = form->chunk[i];
             *chunksLength = *chunksLength + 1;
         }
diff --git a/src/libiff/group.c b/src/libiff/group.c
index 1424e9c..b1765ef 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -262,6 +262,10 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
         IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);
 
         forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
+        free(result);
+
+        if(forms == NULL && resultLength > 0)
+            return NULL;
     }
 
     return forms;
-- 
2.43.0


From f0220ddc7b28a795665c70fdad0e4275c717f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 11/16] fix: do not leak the previous data of a chunk or crash
 without memory when setting text

---
 src/libiff/rawchunk.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libiff/rawchunk.c b/src/libiff/rawchunk.c
index b3d281a..b10bab4 100644
--- a/src/libiff/rawchunk.c
+++ b/src/libiff/rawchunk.c
@@ -61,8 +61,12 @@ void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
     size_t textLength = strlen(text);
     IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));
 
-    memcpy(chunkData, text, textLength);
-    IFF_setRawChunkData(rawChunk, chunkData, textLength);
+    if(chunkData != NULL)
+    {
+        memcpy(chunkData, text, textLength);
+        free(rawChunk->chunkData);
+        IFF_setRawChunkData(rawChunk, chunkData, textLength);
+    }
 }
 
 IFF_Bool IFF_readRawChunk(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
-- 
2.43.0


From 71a21aeef0d041d9235ec8a1412adbfa89920a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 12/16] fix: handle failing allocations when attaching chunks
 to groups

---
 src/libiff/group.c | 23 ++++++++++++++++++-----
 src/libiff/group.h |  3 ++-
 src/libiff/list.c  | 28 ++++++++++++++++++++++------
 3 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index b1765ef..345ba9b 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -57,18 +57,27 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
     return (IFF_Chunk*)IFF_createGroup(chunkId, chunkSize, 0);
 }
 
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    group->chunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+    IFF_Chunk **newChunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+
+    if(newChunk == NULL)
+    {
+        IFF_error("Cannot allocate memory to attach a chunk to a group!\n");
+        return FALSE;
+    }
+
+    group->chunk = newChunk;
     group->chunk[group->chunkLength] = chunk;
     group->chunkLength++;
     chunk->parent = group;
+    return TRUE;
 }
 
 void IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    IFF_attachToGroup(group, chunk);
-    group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
+    if(IFF_attachToGroup(group, chunk))
+        group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
 }
 
 static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
@@ -82,7 +91,11 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
             return FALSE;
 
         /* Attach chunk to the group */
-        IFF_attachToGroup(group, chunk);
+        if(!IFF_attachToGroup(group, chunk))
+        {
+            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
diff --git a/src/libiff/group.h b/src/libiff/group.h
index 6490c74..2f88ef2 100644
--- a/src/libiff/group.h
+++ b/src/libiff/group.h
@@ -103,8 +103,9 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been attached, else FALSE (the memory for the reference can't be allocated)
  */
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given group. This function also increments the
diff --git a/src/libiff/list.c b/src/libiff/list.c
index 74f7369..50d9f4d 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -57,18 +57,27 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
     return (IFF_Chunk*)IFF_createList(chunkSize, 0);
 }
 
-static void addPropToList(IFF_List *list, IFF_Prop *prop)
+static IFF_Bool addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    list->prop = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+    IFF_Prop **newProp = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+
+    if(newProp == NULL)
+    {
+        IFF_error("Cannot allocate memory to attach a PROP to a list!\n");
+        return FALSE;
+    }
+
+    list->prop = newProp;
     list->prop[list->propLength] = prop;
     list->propLength++;
     prop->parent = (IFF_Group*)list;
+    return TRUE;
 }
 
 void IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    addPropToList(list, prop);
-    list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
+    if(addPropToList(list, prop))
+        list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
 }
 
 void IFF_addToList(IFF_List *list, IFF_Chunk *chunk)
@@ -87,15 +96,22 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     {
         /* Read sub chunk */
         IFF_Chunk *chunk = IFF_readChunk(file, list->contentsType, chunkRegistry);
+        IFF_Bool attached;
 
         if(chunk == NULL)
             return FALSE;
 
         /* Add the PROP chunk or arbitrary sub chunk */
         if(chunk->chunkId == IFF_ID_PROP)
-            addPropToList(list, (IFF_Prop*)chunk);
+            attached = addPropToList(list, (IFF_Prop*)chunk);
         else
-            IFF_attachToGroup((IFF_Group*)list, chunk);
+            attached = IFF_attachToGroup((IFF_Group*)list, chunk);
+
+        if(!attached)
+        {
+            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
-- 
2.43.0


From 915aaae2e5b56ff726f4bc379e043a575da5bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 13/16] fix: do not let the sizes of groups wrap around

---
 src/libiff/group.c | 19 ++++++++++++++-----
 src/libiff/list.c  | 14 ++++++++++++++
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 345ba9b..beeb831 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -30,6 +30,8 @@
 #include "error.h"
 #include "util.h"
 
+#define MAX_CHUNK_SIZE 0x7fffffff
+
 void IFF_initGroup(IFF_Group *group, const IFF_ID groupType)
 {
     group->groupType = groupType;
@@ -201,6 +203,12 @@ IFF_Bool IFF_checkGroup(const IFF_Group *group, IFF_Bool (*groupTypeCheck) (cons
     if((chunkSize = IFF_checkGroupSubChunks(group, subChunkCheck, chunkRegistry)) == -1)
         return FALSE;
 
+    if(chunkSize > MAX_CHUNK_SIZE - IFF_ID_SIZE)
+    {
+        IFF_error("The sub chunks of a group exceed the maximum chunk size!\n");
+        return FALSE;
+    }
+
     chunkSize += IFF_ID_SIZE;
 
     if(!IFF_checkGroupChunkSize(group, chunkSize))
@@ -286,13 +294,14 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
 
 IFF_Long IFF_incrementChunkSize(const IFF_Long chunkSize, const IFF_Chunk *chunk)
 {
-    IFF_Long returnValue = chunkSize + IFF_ID_SIZE + sizeof(IFF_Long) + chunk->chunkSize;
-
     /* If the size of the nested chunk size is odd, we have to count the padding byte as well */
-    if(chunk->chunkSize % 2 != 0)
-        returnValue++;
+    IFF_Long overhead = IFF_ID_SIZE + sizeof(IFF_Long) + (chunk->chunkSize % 2 != 0 ? 1 : 0);
+
+    /* A size that cannot be represented becomes the maximum, which is odd so that it never equals the size of a real body */
+    if(chunkSize > MAX_CHUNK_SIZE - overhead || chunk->chunkSize > MAX_CHUNK_SIZE - overhead - chunkSize)
+        return MAX_CHUNK_SIZE;
 
-    return returnValue;
+    return chunkSize + overhead + chunk->chunkSize;
 }
 
 void IFF_updateGroupChunkSizes(IFF_Group *group)
diff --git a/src/libiff/list.c b/src/libiff/list.c
index 50d9f4d..565226f 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -27,6 +27,8 @@
 #include "cat.h"
 #include "error.h"
 
+#define MAX_CHUNK_SIZE 0x7fffffff
+
 IFF_List *IFF_createList(const IFF_Long chunkSize, const IFF_ID contentsType)
 {
     IFF_List *list = (IFF_List*)IFF_createChunk(IFF_ID_LIST, chunkSize, sizeof(IFF_List));
@@ -211,12 +213,24 @@ IFF_Bool IFF_checkList(const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkReg
     if((subChunkSize = checkListPropChunks(list, chunkRegistry)) == -1)
         return FALSE;
 
+    if(subChunkSize > MAX_CHUNK_SIZE - chunkSize)
+    {
+        IFF_error("The PROP chunks of a list exceed the maximum chunk size!\n");
+        return FALSE;
+    }
+
     chunkSize += subChunkSize;
 
     /* Check validity of other sub chunks */
     if((subChunkSize = IFF_checkGroupSubChunks((IFF_Group*)list, &IFF_checkCATSubChunk, chunkRegistry)) == -1)
         return FALSE;
 
+    if(subChunkSize > MAX_CHUNK_SIZE - chunkSize)
+    {
+        IFF_error("The sub chunks of a list exceed the maximum chunk size!\n");
+        return FALSE;
+    }
+
     chunkSize += subChunkSize;
 
     /* Check whether the calculated chunk size matches the chunks' chunk size */
-- 
2.43.0


From 46490e3e09520bccfaab563121e2e017d491a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:42 +0000
Subject: [PATCH 14/16] fix: compare the sizes of the shared property chunks of
 lists

---
 src/libiff/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 565226f..9f9398c 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -286,7 +286,7 @@ static IFF_Bool compareListPropChunks(const IFF_List *list1, const IFF_List *lis
 
         for(i = 0; i < list1->propLength; i++)
         {
-            if(!IFF_compareProp((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], chunkRegistry))
+            if(!IFF_compareChunk((IFF_Chunk*)list1->prop[i], (IFF_Chunk*)list2->prop[i], list1->contentsType, chunkRegistry))
                return FALSE;
         }
 
-- 
2.43.0


From 4b12ea44c923c1d7a52fb5decca44cc344999b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:43 +0000
Subject: [PATCH 15/16] fix: write the shared properties of a list with the
 handlers that read them

---
 src/libiff/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/list.c b/src/libiff/list.c
index 9f9398c..1fc0f8b 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -151,7 +151,7 @@ static IFF_Bool writeListPropChunks(FILE *file, const IFF_List *list, const IFF_
 
     for(i = 0; i < list->propLength; i++)
     {
-        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], 0, chunkRegistry))
+        if(!IFF_writeChunk(file, (IFF_Chunk*)list->prop[i], list->contentsType, chunkRegistry))
         {
             IFF_error("Error writing PROP!\n");
             return FALSE;
-- 
2.43.0


From a93fb6269bfe9e77c4234b2cd4ca47dcf60f3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:09 +0000
Subject: [PATCH 16/16] fix: joining files fails cleanly when memory is not
 available

IFF_join used the concatenation without checking that it could be allocated,
lost a chunk that could not be added to it (reporting success), and iffjoin
stored the file names through an unchecked pointer.
---
 src/iffjoin/join.c | 16 ++++++++++++++++
 src/iffjoin/main.c |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 47e4ca7..18bcb81 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -34,6 +34,12 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
     unsigned int i;
     int status = 0;
 
+    if(cat == NULL)
+    {
+        fprintf(stderr, "Cannot allocate memory for the concatenation!\n");
+        return 1;
+    }
+
     for(i = 0; i < inputFilenamesLength; i++)
     {
         /* Open each input IFF file */
@@ -49,7 +55,17 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
             return 1;
         }
         else
+        {
             IFF_addToCATAndUpdateContentsType(cat, chunk); /* Add the input IFF chunk to the concatenation */
+
+            /* A chunk that could not be added still belongs to us */
+            if(chunk->parent == NULL)
+            {
+                IFF_free(chunk, NULL);
+                IFF_free((IFF_Chunk*)cat, NULL);
+                return 1;
+            }
+        }
     }
 
     /* Write the resulting CAT to the output file or standard output */
diff --git a/src/iffjoin/main.c b/src/iffjoin/main.c
index 63f44ae..cb02d6a 100644
--- a/src/iffjoin/main.c
+++ b/src/iffjoin/main.c
@@ -138,6 +138,12 @@ int main(int argc, char *argv[])
         unsigned int i;
         int status;
 
+        if(inputFilenames == NULL)
+        {
+            fprintf(stderr, "ERROR: Cannot allocate memory for the input file names!\n");
+            return 1;
+        }
+
         /* Create an array of input file names */
         for(i = 0; i < inputFilenamesLength; i++)
             inputFilenames[i] = argv[optind + i];
-- 
2.43.0

