From b7be5f085da5f405a65cfc1d76e58c42780d77c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:29 +0000
Subject: [PATCH 01/74] fix: test the size of a linked list under its lock

The size was read before the lock was taken, so another thread could empty or
fill the list in between and the operation worked on freed elements or exceeded
the capacity.
---
 wizard/hashmap.c | 61 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 6253f67..f5945b7 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -154,14 +154,18 @@ WizardExport WizardBooleanType AppendValueToLinkedList(
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == list_info->capacity)
-    return(WizardFalse);
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
     return(WizardFalse);
   next->value=(void *) value;
   next->next=(ElementInfo *) NULL;
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == list_info->capacity)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      next=(ElementInfo *) RelinquishWizardMemory(next);
+      return(WizardFalse);
+    }
   if (list_info->next == (ElementInfo *) NULL)
     list_info->next=next;
   if (list_info->elements == 0)
@@ -450,9 +454,12 @@ WizardExport void *GetLastValueInLinkedList(LinkedListInfo *list_info)
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == 0)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   value=list_info->tail->value;
   UnlockSemaphoreInfo(list_info->semaphore);
   return(value);
@@ -798,9 +805,12 @@ WizardExport void *GetValueFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (index >= list_info->elements)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (index >= list_info->elements)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (index == 0)
     {
       value=list_info->head->value;
@@ -1001,15 +1011,19 @@ WizardExport WizardBooleanType InsertValueInLinkedList(
   assert(list_info->signature == WizardSignature);
   if (value == NULL)
     return(WizardFalse);
-  if ((index > list_info->elements) ||
-      (list_info->elements == list_info->capacity))
-    return(WizardFalse);
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
     return(WizardFalse);
   next->value=(void *) value;
   next->next=(ElementInfo *) NULL;
   LockSemaphoreInfo(list_info->semaphore);
+  if ((index > list_info->elements) ||
+      (list_info->elements == list_info->capacity))
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      next=(ElementInfo *) RelinquishWizardMemory(next);
+      return(WizardFalse);
+    }
   if (list_info->elements == 0)
     {
       if (list_info->next == (ElementInfo *) NULL)
@@ -1107,14 +1121,18 @@ WizardExport WizardBooleanType InsertValueInSortedLinkedList(
   if ((compare == (int (*)(const void *,const void *)) NULL) ||
       (value == (const void *) NULL))
     return(WizardFalse);
-  if (list_info->elements == list_info->capacity)
-    return(WizardFalse);
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
     return(WizardFalse);
   next->value=(void *) value;
   element=(ElementInfo *) NULL;
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == list_info->capacity)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      next=(ElementInfo *) RelinquishWizardMemory(next);
+      return(WizardFalse);
+    }
   next->next=list_info->head;
   while (next->next != (ElementInfo *) NULL)
   {
@@ -1600,9 +1618,14 @@ WizardExport void *RemoveElementByValueFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if ((list_info->elements == 0) || (value == NULL))
+  if (value == NULL)
     return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (value == list_info->head->value)
     {
       if (list_info->next == list_info->head)
@@ -1678,9 +1701,12 @@ WizardExport void *RemoveElementFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (index >= list_info->elements)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (index >= list_info->elements)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (index == 0)
     {
       if (list_info->next == list_info->head)
@@ -1830,9 +1856,12 @@ WizardExport void *RemoveLastElementFromLinkedList(LinkedListInfo *list_info)
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == 0)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (list_info->next == list_info->tail)
     list_info->next=(ElementInfo *) NULL;
   if (list_info->elements == 1UL)
-- 
2.43.0


From a0d9519b606f47ee676eec4fbe441d2148c942ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:29 +0000
Subject: [PATCH 02/74] fix: link the new element when inserting in the middle
 of a list

The new element was dropped: the predecessor was linked to the old successor
while the element count was still increased.
---
 wizard/hashmap.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index f5945b7..9aa4ab8 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1060,7 +1060,6 @@ WizardExport WizardBooleanType InsertValueInLinkedList(
               element=element->next;
               next->next=element->next;
             }
-            next=next->next;
             element->next=next;
             if (list_info->next == next->next)
               list_info->next=next;
-- 
2.43.0


From 9b974f2b2d676ce78f09de56121201caa65f82de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:29 +0000
Subject: [PATCH 03/74] fix: release the replaced element of a sorted list at
 any position

Replacing the first element leaked it, and the list iterator kept pointing at a
replaced element that had been freed.
---
 wizard/hashmap.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 9aa4ab8..47a75a0 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1140,11 +1140,15 @@ WizardExport WizardBooleanType InsertValueInSortedLinkedList(
       {
         if (i == 0)
           {
-            *replace=next->next->value;
-            next->next=next->next->next;
-            if (element != (ElementInfo *) NULL)
-              element->next=(ElementInfo *) RelinquishWizardMemory(
-                element->next);
+            ElementInfo
+              *previous;
+
+            previous=next->next;
+            *replace=previous->value;
+            next->next=previous->next;
+            if (list_info->next == previous)
+              list_info->next=next;
+            previous=(ElementInfo *) RelinquishWizardMemory(previous);
             list_info->elements--;
           }
         if (element != (ElementInfo *) NULL)
-- 
2.43.0


From 9735f8c51df73d52b1fb2706ad2036f89c7e1d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:29 +0000
Subject: [PATCH 04/74] fix: keep the number of hashmap entries right when a
 key is put again

Replacing an entry counted it twice.  A failed insertion had already dropped the
old entry, and a failure to grow the table reported failure for an entry that
had been stored.
---
 wizard/hashmap.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 47a75a0..4df7243 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1521,9 +1521,6 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
   LinkedListInfo
     *list_info;
 
-   size_t
-    i;
-
   assert(hashmap_info != (HashmapInfo *) NULL);
   assert(hashmap_info->signature == WizardSignature);
   if ((key == (void *) NULL) || (value == (void *) NULL))
@@ -1545,7 +1542,7 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
     {
       list_info->next=list_info->head;
       entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
-      for (i=0; entry != (EntryInfo *) NULL; i++)
+      while (entry != (EntryInfo *) NULL)
       {
         if (entry->hash == next->hash)
           {
@@ -1558,13 +1555,18 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
               compare=hashmap_info->compare(key,entry->key);
             if (compare == WizardTrue)
               {
-                (void) RemoveElementFromLinkedList(list_info,i);
+                /*
+                  Replace the value of an existing entry.
+                */
                 if (hashmap_info->relinquish_key != (void *(*)(void *)) NULL)
                   entry->key=hashmap_info->relinquish_key(entry->key);
                 if (hashmap_info->relinquish_value != (void *(*)(void *)) NULL)
                   entry->value=hashmap_info->relinquish_value(entry->value);
-                entry=(EntryInfo *) RelinquishWizardMemory(entry);
-                break;
+                entry->key=next->key;
+                entry->value=next->value;
+                next=(EntryInfo *) RelinquishWizardMemory(next);
+                UnlockSemaphoreInfo(hashmap_info->semaphore);
+                return(WizardTrue);
               }
           }
         entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
@@ -1577,11 +1579,7 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
       return(WizardFalse);
     }
   if (list_info->elements >= (hashmap_info->capacity-1))
-    if (IncreaseHashmapCapacity(hashmap_info) == WizardFalse)
-      {
-        UnlockSemaphoreInfo(hashmap_info->semaphore);
-        return(WizardFalse);
-      }
+    (void) IncreaseHashmapCapacity(hashmap_info);
   hashmap_info->entries++;
   UnlockSemaphoreInfo(hashmap_info->semaphore);
   return(WizardTrue);
-- 
2.43.0


From 10cfdf684898f927adc6208350c751c54072ebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:29 +0000
Subject: [PATCH 05/74] fix: test for an empty splay-tree under its lock

The root was tested before the lock was taken, so a concurrent removal of the
last node made lookups and deletions dereference a null root.
---
 wizard/splay-tree.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/wizard/splay-tree.c b/wizard/splay-tree.c
index 40be8b1..f21ef7d 100644
--- a/wizard/splay-tree.c
+++ b/wizard/splay-tree.c
@@ -610,9 +610,12 @@ WizardExport WizardBooleanType DeleteNodeFromSplayTree(
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(WizardFalse);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(WizardFalse);
+    }
   SplaySplayTree(splay_tree,key);
   splay_tree->key=(void *) NULL;
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
@@ -774,10 +777,13 @@ WizardExport const void *GetNextKeyInSplayTree(SplayTreeInfo *splay_tree)
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
+  LockSemaphoreInfo(splay_tree->semaphore);
   if ((splay_tree->root == (NodeInfo *) NULL) ||
       (splay_tree->next == (void *) NULL))
-    return((void *) NULL);
-  LockSemaphoreInfo(splay_tree->semaphore);
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,splay_tree->next);
   splay_tree->next=(void *) NULL;
   node=splay_tree->root->right;
@@ -828,10 +834,13 @@ WizardExport const void *GetNextValueInSplayTree(SplayTreeInfo *splay_tree)
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
+  LockSemaphoreInfo(splay_tree->semaphore);
   if ((splay_tree->root == (NodeInfo *) NULL) ||
       (splay_tree->next == (void *) NULL))
-    return((void *) NULL);
-  LockSemaphoreInfo(splay_tree->semaphore);
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,splay_tree->next);
   splay_tree->next=(void *) NULL;
   node=splay_tree->root->right;
@@ -884,9 +893,12 @@ WizardExport const void *GetValueFromSplayTree(SplayTreeInfo *splay_tree,
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return((void *) NULL);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,key);
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
     compare=splay_tree->compare(splay_tree->root->key,key);
@@ -1157,9 +1169,12 @@ WizardExport void *RemoveNodeByValueFromSplayTree(SplayTreeInfo *splay_tree,
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   key=(void *) NULL;
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(key);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(key);
+    }
   next=(NodeInfo *) GetFirstSplayTreeNode(splay_tree);
   while (next != (NodeInfo *) NULL)
   {
@@ -1269,9 +1284,12 @@ WizardExport void *RemoveNodeFromSplayTree(SplayTreeInfo *splay_tree,
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   value=(void *) NULL;
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(value);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(value);
+    }
   SplaySplayTree(splay_tree,key);
   splay_tree->key=(void *) NULL;
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
-- 
2.43.0


From 63cf92d14d7c2009b462667fec134bc0be270fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:58 +0000
Subject: [PATCH 06/74] fix: report the number of list elements under the list
 lock

A sorted insertion that replaces an element lowers and raises the count, and an
unlocked reader could see the value in between.
---
 wizard/hashmap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 4df7243..3c61efd 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -685,9 +685,15 @@ WizardExport size_t GetNumberOfEntriesInHashmap(
 WizardExport size_t GetNumberOfElementsInLinkedList(
   const LinkedListInfo *list_info)
 {
+  size_t
+    elements;
+
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  return(list_info->elements);
+  LockSemaphoreInfo(list_info->semaphore);
+  elements=list_info->elements;
+  UnlockSemaphoreInfo(list_info->semaphore);
+  return(elements);
 }
 
 /*
-- 
2.43.0


From e6b73e0c7328fad371cf6d7638d025ed27bf10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:49 +0000
Subject: [PATCH 07/74] fix: do not mistake end of file or a failure for an
 interrupted call

The read and write loops retried whenever errno was EINTR, even if the value
was left behind by an earlier call.  A read that met the end of the file after
an interrupted one looped forever.  Clear errno before each call.
---
 wizard/blob.c     | 4 ++++
 wizard/file.c     | 2 ++
 wizard/random.c   | 1 +
 wizard/string.c   | 1 +
 wizard/xml-tree.c | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/wizard/blob.c b/wizard/blob.c
index 7cb3ff6..1e97be3 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -598,6 +598,7 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
       blob=(unsigned char *) AcquireQuantumMemory(quantum,sizeof(*blob));
       for (i=0; blob != (unsigned char *) NULL; i+=count)
       {
+        errno=0;
         count=read(file,blob+i,quantum);
         if (count <= 0)
           {
@@ -666,6 +667,7 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
           "unable to seek blob `%s': %s",filename,strerror(errno));
       for (i=0; i < *length; i+=count)
       {
+        errno=0;
         count=read(file,blob+i,Min(*length-i,(size_t) SSIZE_MAX));
         if (count <= 0)
           {
@@ -1548,6 +1550,7 @@ WizardExport ssize_t ReadBlobChunk(BlobInfo *blob_info,const size_t length,
   count=0;
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=ReadBlob(blob_info,(size_t) WizardMin(length-i,SSIZE_MAX),
       (unsigned char *) data+i);
     if (count <= 0)
@@ -2143,6 +2146,7 @@ WizardExport ssize_t WriteBlobChunk(BlobInfo *blob_info,const size_t length,
   count=0;
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=WriteBlob(blob_info,(size_t) WizardMin(length-i,SSIZE_MAX),
       (const unsigned char *) data+i);
     if (count <= 0)
diff --git a/wizard/file.c b/wizard/file.c
index 42e9b62..96ff86d 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -617,6 +617,7 @@ WizardExport WizardBooleanType ReadFileChunk(FileInfo *file_info,void *data,
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"%s",file_info->path);
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=read(file_info->file,(unsigned char *) data+i,Min(length-i,(size_t)
       WizardMaxBufferExtent));
     if (count <= 0)
@@ -862,6 +863,7 @@ WizardExport WizardBooleanType WriteFileChunk(FileInfo *file_info,
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"%s",file_info->path);
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=write(file_info->file,(unsigned char *) data+i,length-i);
     if (count <= 0)
       {
diff --git a/wizard/random.c b/wizard/random.c
index ad344d5..95d77c7 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -345,6 +345,7 @@ static ssize_t ReadRandom(int file,unsigned char *source,size_t length)
   offset=0;
   for (q=source; length != 0; length-=count)
   {
+    errno=0;
     count=(ssize_t) read(file,q,length);
     if (count <= 0)
       {
diff --git a/wizard/string.c b/wizard/string.c
index 580c2bf..d2b5970 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -600,6 +600,7 @@ WizardExport StringInfo *ConfigureFileToStringInfo(const char *filename)
       (void) lseek(file,0,SEEK_SET);
       for (i=0; i < length; i+=count)
       {
+        errno=0;
         count=read(file,string+i,(size_t) WizardMin(length-i,(size_t)
           SSIZE_MAX));
         if (count <= 0)
diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index bd9ceee..258bb3d 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -681,6 +681,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       xml=(char *) AcquireQuantumMemory(quantum,sizeof(*xml));
       for (i=0; xml != (char *) NULL; i+=count)
       {
+        errno=0;
         count=read(file,xml+i,quantum);
         if (count <= 0)
           {
@@ -730,6 +731,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       (void) lseek(file,0,SEEK_SET);
       for (i=0; i < length; i+=count)
       {
+        errno=0;
         count=read(file,xml+i,(size_t) WizardMin(length-i,(ssize_t) SSIZE_MAX));
         if (count <= 0)
           {
-- 
2.43.0


From 5b2353405abf2efb3526b9cc13c3f71fe1032365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:49 +0000
Subject: [PATCH 08/74] fix: keep two owners from holding one file lock

A process that waited ten seconds for a lock removed the lock file of its
holder.  A process that found the lock file of a dead process could remove the
file of its successor.  Hold an operating system lock on the lock file, and
remove the file only while owning that lock.
---
 wizard/file.c | 159 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 101 insertions(+), 58 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index 96ff86d..f442f4d 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -54,7 +54,10 @@
 #include <pthread.h>
 #endif
 #if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
+#include <io.h>
 #include <windows.h>
+#else
+#include <sys/file.h>
 #endif
 
 /*
@@ -72,7 +75,8 @@ struct _FileInfo
     *path;
 
   int
-    file;
+    file,
+    lock;
 
   struct stat
     properties;
@@ -124,6 +128,28 @@ static size_t GetWizardThreadId(void)
 #endif
 }
 
+static WizardBooleanType EngageFileLock(const int file)
+{
+#if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
+  OVERLAPPED
+    region;
+
+  (void) memset(&region,0,sizeof(region));
+  region.OffsetHigh=1;
+  if (LockFileEx((HANDLE) _get_osfhandle(file),LOCKFILE_EXCLUSIVE_LOCK |
+       LOCKFILE_FAIL_IMMEDIATELY,0,1,0,&region) == 0)
+    {
+      errno=EWOULDBLOCK;
+      return(WizardFalse);
+    }
+#else
+  while (flock(file,LOCK_EX | LOCK_NB) == -1)
+    if (errno != EINTR)
+      return(WizardFalse);
+#endif
+  return(WizardTrue);
+}
+
 static WizardBooleanType AcquireFileLock(FileInfo *file_info,
   ExceptionInfo *exception)
 {
@@ -153,73 +179,74 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
   AppendFileExtension("lck",path);
   for (i=0; i < 10; i++)
   {
-    file_info->file=open_utf8(path,O_WRONLY | O_CREAT | O_EXCL,S_MODE);
+    /*
+      The operating system drops the lock of a process that died.
+    */
+    file_info->file=open_utf8(path,O_RDWR | O_CREAT | O_BINARY,S_MODE);
     if (file_info->file == -1)
+      break;
+    if (EngageFileLock(file_info->file) != WizardFalse)
       {
-        if (errno != EEXIST)
-          break;
-        file_info->file=open_utf8(path,O_RDONLY,0);
-        if (file_info->file == -1)
+        struct stat
+          attributes,
+          properties;
+
+        if (fstat(file_info->file,&attributes) == -1)
           break;
-        pid=(-1);
-        tid=(~0UL);
-        status=ReadFileChunk(file_info,&pid,sizeof(pid));
-        status&=ReadFileChunk(file_info,&tid,sizeof(tid));
-        if (close(file_info->file) == -1)
-          (void) ThrowWizardException(exception,GetWizardModule(),FileError,
-            "unable to close file `%s': %s",path,strerror(errno));
-        file_info->file=(-1);
-        if (status != WizardFalse)
+        if (stat_utf8(path,&properties) == -1)
           {
-            WizardBooleanType
-              active_process;
-
-            if ((pid == (ssize_t) getpid()) && (tid == GetWizardThreadId()))
-              {
-                path=DestroyString(path);
-                UnlockSemaphoreInfo(file_info->semaphore);
-                return(WizardTrue);
-              }
-#if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
+            if (errno != ENOENT)
+              break;
+          }
+        else
+          if ((attributes.st_dev == properties.st_dev) &&
+              (attributes.st_ino == properties.st_ino))
             {
-              HANDLE
-                handle;
-
-              handle=OpenProcess(PROCESS_ALL_ACCESS,FALSE,(DWORD) pid);
-              active_process=handle == (HANDLE) NULL ? WizardFalse : WizardTrue;
-              if (handle != (HANDLE) NULL)
-                CloseHandle(handle);
-            }
-#else
-            active_process=kill((pid_t) pid,0) == -1 ? WizardFalse : WizardTrue;
-#endif
-            if (active_process == WizardFalse)
-              {
-                if (errno != ESRCH)
-                  break;
-                i--;
-                if (remove_utf8(path) == -1)
-                  (void) ThrowWizardException(exception,GetWizardModule(),
-                    FileError,"unable to remove file `%s': %s",path,
-                    strerror(errno));
+              /*
+                Identify the owner.
+              */
+              if (ftruncate(file_info->file,0) == -1)
                 break;
-              }
-          }
-        WizardDelay(1000);
+              pid=(ssize_t) getpid();
+              tid=GetWizardThreadId();
+              if (WriteFileChunk(file_info,&pid,sizeof(pid)) != WizardFalse)
+                (void) WriteFileChunk(file_info,&tid,sizeof(tid));
+              file_info->lock=file_info->file;
+              file_info->file=(-1);
+              path=DestroyString(path);
+              UnlockSemaphoreInfo(file_info->semaphore);
+              return(WizardTrue);
+            }
+        /*
+          The previous owner removed this file, try again.
+        */
+        (void) close(file_info->file);
+        file_info->file=(-1);
+        i--;
         continue;
       }
-    pid=(ssize_t) getpid();
-    status=WriteFileChunk(file_info,&pid,sizeof(pid));
-    tid=GetWizardThreadId();
-    status=WriteFileChunk(file_info,&tid,sizeof(tid));
+    if (errno != EWOULDBLOCK)
+      break;
+    pid=(-1);
+    tid=(~0UL);
+    status=ReadFileChunk(file_info,&pid,sizeof(pid));
+    status&=ReadFileChunk(file_info,&tid,sizeof(tid));
     if (close(file_info->file) == -1)
       (void) ThrowWizardException(exception,GetWizardModule(),FileError,
         "unable to close file `%s': %s",path,strerror(errno));
     file_info->file=(-1);
-    if (status == WizardFalse)
-      break;
-    i--;
+    if ((status != WizardFalse) && (pid == (ssize_t) getpid()) &&
+        (tid == GetWizardThreadId()))
+      {
+        path=DestroyString(path);
+        UnlockSemaphoreInfo(file_info->semaphore);
+        return(WizardTrue);
+      }
+    WizardDelay(1000);
   }
+  if (file_info->file != -1)
+    (void) close(file_info->file);
+  file_info->file=(-1);
   path=DestroyString(path);
   UnlockSemaphoreInfo(file_info->semaphore);
   return(WizardFalse);
@@ -279,6 +306,7 @@ WizardExport FileInfo *AcquireFileInfo(const char *path,
   (void) memset(file_info,0,sizeof(*file_info));
   file_info->path=AcquireString((char *) NULL);
   file_info->file=(-1);
+  file_info->lock=(-1);
   file_info->semaphore=AcquireSemaphoreInfo();
   file_info->timestamp=time((time_t *) NULL);
   file_info->signature=WizardSignature;
@@ -809,17 +837,32 @@ static WizardBooleanType RelinquishFileLock(FileInfo *file_info,
   char
     *path;
 
+  WizardBooleanType
+    status;
+
+  if (file_info->lock == -1)
+    return(WizardTrue);
+  status=WizardTrue;
   path=AcquireString(file_info->path);
   AppendFileExtension("lck",path);
   if (remove_utf8(path) == -1)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),FileError,
         "unable to remove file `%s': %s",path,strerror(errno));
-      path=DestroyString(path);
-      return(WizardFalse);
+      status=WizardFalse;
+      if (ftruncate(file_info->lock,0) == -1)
+        {
+          /*
+            We still appear as the owner, keep the lock until we exit.
+          */
+          path=DestroyString(path);
+          return(status);
+        }
     }
   path=DestroyString(path);
-  return(WizardTrue);
+  (void) close(file_info->lock);
+  file_info->lock=(-1);
+  return(status);
 }
 
 /*
-- 
2.43.0


From 41ac686b7a68d243e05810c49d93ae9e078dccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:04 +0000
Subject: [PATCH 09/74] fix: name the damaged keyring before its file info is
 destroyed

The error message read the path of a file info that was already released,
which aborted the program.
---
 wizard/keyring.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 7283079..0d974e8 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -230,9 +230,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   magick=DestroyStringInfo(magick);
@@ -244,9 +244,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,filetype) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   filetype=DestroyStringInfo(filetype);
@@ -257,9 +257,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
   {
     if (signature != WizardSignature)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     keyring_info->signature=signature;
@@ -275,9 +275,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     id=AcquireStringInfo(length);
@@ -286,9 +286,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     key=AcquireStringInfo(length);
@@ -297,9 +297,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     nonce=AcquireStringInfo(length);
@@ -320,9 +320,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     id=DestroyStringInfo(id);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
   }
@@ -476,10 +476,10 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   offset=lseek(GetFileDescriptor(file_info),0,SEEK_END);
   if (offset == -1)
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "unable to seek keyring `%s': %s",GetFilePath(file_info),
         strerror(errno));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   status&=WriteFile32Bits(file_info,keyring_info->signature);
@@ -606,9 +606,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   magick=DestroyStringInfo(magick);
@@ -620,9 +620,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,filetype) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   filetype=DestroyStringInfo(filetype);
@@ -633,9 +633,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
   {
     if (keyring_info.signature != WizardSignature)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     status&=ReadFile32Bits(file_info,&length);
@@ -650,9 +650,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     id=AcquireStringInfo(length);
@@ -661,9 +661,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     key=AcquireStringInfo(length);
@@ -672,9 +672,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     nonce=AcquireStringInfo(length);
@@ -714,9 +714,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     id=DestroyStringInfo(id);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
   }
-- 
2.43.0


From 89499cef48495d6def1bb28d21512cf70fd40e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:45:04 +0000
Subject: [PATCH 10/74] fix: do not return a key whose record is cut short

A record that ended inside its nonce was returned as a complete one.
---
 wizard/keyring.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 0d974e8..a98346c 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -305,7 +305,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     nonce=AcquireStringInfo(length);
     status&=ReadFileChunk(file_info,GetStringInfoDatum(nonce),
       GetStringInfoLength(nonce));
-    if (CompareStringInfo(keyring_info->id,id) == 0)
+    if ((status != WizardFalse) &&
+        (CompareStringInfo(keyring_info->id,id) == 0))
       {
         SetKeyringKey(keyring_info,key);
         SetKeyringNonce(keyring_info,nonce);
-- 
2.43.0


From 48ef92de9d14b948dd2e88c74b7b628de88dd77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:14 +0000
Subject: [PATCH 11/74] fix: report lack of memory instead of using a missing
 path

The path of a keyring or of a digested file can be missing if memory runs out.
---
 utilities/digest.c | 2 ++
 wizard/keyring.c   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/utilities/digest.c b/utilities/digest.c
index 4a290fc..39a420c 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -732,6 +732,8 @@ WizardExport WizardBooleanType DigestCommand(int argc,char **argv,
     FinalizeHash(hash_info);
     digest_rdf=AcquireString("  <digest:Content rdf:about=\"");
     canonical_path=CanonicalXMLContent(argv[i],WizardFalse);
+    if (canonical_path == (char *) NULL)
+      ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
     (void) ConcatenateString(&digest_rdf,canonical_path);
     canonical_path=DestroyString(canonical_path);
     (void) ConcatenateString(&digest_rdf,"\">\n");
diff --git a/wizard/keyring.c b/wizard/keyring.c
index a98346c..4f35289 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -580,6 +580,8 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     return(WizardTrue);
   keyring_rdf=AcquireString("  <keyring:Keyring rdf:about=\"");
   canonical_path=CanonicalXMLContent(GetFilePath(file_info),WizardFalse);
+  if (canonical_path == (char *) NULL)
+    ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
   (void) ConcatenateString(&keyring_rdf,canonical_path);
   (void) ConcatenateString(&keyring_rdf,"\">\n");
   properties=GetFileProperties(file_info);
-- 
2.43.0


From dbcaa4fecabda026d0533304bfee05766d2119c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:14 +0000
Subject: [PATCH 12/74] fix: store a key completely or not at all, and only
 once

Storing a key looked for a duplicate before it took the lock, so two processes
could both store one identifier.  It appended after a record that a killed
process had cut short, which made all later keys unreadable.  It returned
success if a write failed.  Look for the end of the last complete record under
the lock, remove what follows, and report failed writes.
---
 wizard/keyring.c | 237 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 190 insertions(+), 47 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 4f35289..55388e9 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -416,25 +416,138 @@ WizardExport const StringInfo *GetKeyringNonce(const KeyringInfo *keyring_info)
 %    o exception: Return any errors or warnings in this structure.
 %
 */
+
+static WizardOffsetType GetKeyringExtent(FileInfo *file_info,
+  const StringInfo *id,WizardBooleanType *duplicate)
+{
+  int
+    file;
+
+  size_t
+    i,
+    length,
+    signature;
+
+  StringInfo
+    *filetype,
+    *magick,
+    *target;
+
+  unsigned short
+    protocol_major,
+    protocol_minor;
+
+  WizardBooleanType
+    match;
+
+  WizardOffsetType
+    extent,
+    offset,
+    size;
+
+  WizardSizeType
+    timestamp;
+
+  WizardStatusType
+    status;
+
+  /*
+    Return the end of the last complete record or -1 if this is not a keyring.
+  */
+  *duplicate=WizardFalse;
+  file=GetFileDescriptor(file_info);
+  size=(WizardOffsetType) lseek(file,0,SEEK_END);
+  if ((size == -1) || (lseek(file,0,SEEK_SET) == -1))
+    return(-1);
+  magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
+  filetype=GetWizardMagick((unsigned char *) KeyringFiletype,
+    strlen(KeyringFiletype));
+  extent=(WizardOffsetType) (GetStringInfoLength(magick)+
+    GetStringInfoLength(filetype));
+  status=WizardTrue;
+  if (size >= extent)
+    {
+      target=CloneStringInfo(magick);
+      status&=ReadFileChunk(file_info,GetStringInfoDatum(target),
+        GetStringInfoLength(target));
+      if (CompareStringInfo(target,magick) != 0)
+        status=WizardFalse;
+      target=DestroyStringInfo(target);
+      target=CloneStringInfo(filetype);
+      status&=ReadFileChunk(file_info,GetStringInfoDatum(target),
+        GetStringInfoLength(target));
+      if (CompareStringInfo(target,filetype) != 0)
+        status=WizardFalse;
+      target=DestroyStringInfo(target);
+    }
+  filetype=DestroyStringInfo(filetype);
+  magick=DestroyStringInfo(magick);
+  if (status == WizardFalse)
+    return(-1);
+  if (size < extent)
+    return(0);
+  for (offset=extent; offset < size; extent=offset)
+  {
+    status=ReadFile32Bits(file_info,&signature);
+    if ((status != WizardFalse) && (signature != WizardSignature))
+      return(-1);
+    status&=ReadFile32Bits(file_info,&length);
+    status&=ReadFile16Bits(file_info,&protocol_major);
+    status&=ReadFile16Bits(file_info,&protocol_minor);
+    if ((status != WizardFalse) &&
+        ((protocol_major != 1) || (protocol_minor != 0)))
+      status&=ReadFile64Bits(file_info,&timestamp);
+    match=WizardFalse;
+    for (i=0; i < 3; i++)
+    {
+      status&=ReadFile32Bits(file_info,&length);
+      offset=(WizardOffsetType) lseek(file,0,SEEK_CUR);
+      if (offset == -1)
+        return(-1);
+      if (status == WizardFalse)
+        return(offset == size ? extent : -1);
+      if ((WizardOffsetType) length > (size-offset))
+        return(extent);
+      if ((i == 0) && (length == GetStringInfoLength(id)))
+        {
+          target=CloneStringInfo(id);
+          status&=ReadFileChunk(file_info,GetStringInfoDatum(target),length);
+          if (status == WizardFalse)
+            {
+              target=DestroyStringInfo(target);
+              return(-1);
+            }
+          if (CompareStringInfo(target,id) == 0)
+            match=WizardTrue;
+          target=DestroyStringInfo(target);
+        }
+      offset=(WizardOffsetType) lseek(file,offset+(WizardOffsetType) length,
+        SEEK_SET);
+      if (offset == -1)
+        return(-1);
+    }
+    if (match != WizardFalse)
+      *duplicate=WizardTrue;
+  }
+  return(extent);
+}
+
 WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   ExceptionInfo *exception)
 {
   FileInfo
     *file_info;
 
-  KeyringInfo
-    *import_info;
-
   WizardStatusType
     status;
 
-  size_t
-    length;
-
   StringInfo
     *filetype,
     *magick;
 
+  WizardBooleanType
+    duplicate;
+
   WizardOffsetType
     offset;
 
@@ -442,9 +555,19 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   WizardAssert(KeymapDomain,keyring_info != (KeyringInfo *) NULL);
   WizardAssert(KeymapDomain,keyring_info->signature == WizardSignature);
   WizardAssert(KeymapDomain,exception != (ExceptionInfo *) NULL);
-  import_info=AcquireKeyringInfo(keyring_info->path);
-  SetKeyringId(import_info,keyring_info->id);
-  if (ExportKeyringKey(import_info,exception) != WizardFalse)
+  file_info=AcquireFileInfo(keyring_info->path,KeyringFilename,WriteFileMode,
+    exception);
+  if (file_info == (FileInfo *) NULL)
+    return(WizardFalse);
+  offset=GetKeyringExtent(file_info,keyring_info->id,&duplicate);
+  if (offset == -1)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
+      return(WizardFalse);
+    }
+  if (duplicate != WizardFalse)
     {
       char
         *id;
@@ -455,27 +578,13 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
       id=StringInfoToHexString(keyring_info->id);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "unable to import key `%s' (its already in the keyring): %s",id,
-        keyring_info->path);
+        GetFilePath(file_info));
       id=DestroyString(id);
-      import_info=DestroyKeyringInfo(import_info);
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
-  import_info=DestroyKeyringInfo(import_info);
-  file_info=AcquireFileInfo(keyring_info->path,KeyringFilename,WriteFileMode,
-    exception);
-  if (file_info == (FileInfo *) NULL)
-    return(WizardFalse);
-  magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
-  status=WriteFileChunk(file_info,GetStringInfoDatum(magick),
-    GetStringInfoLength(magick));
-  magick=DestroyStringInfo(magick);
-  filetype=GetWizardMagick((unsigned char *) KeyringFiletype,
-    strlen(KeyringFiletype));
-  status&=WriteFileChunk(file_info,GetStringInfoDatum(filetype),
-    GetStringInfoLength(filetype));
-  filetype=DestroyStringInfo(filetype);
-  offset=lseek(GetFileDescriptor(file_info),0,SEEK_END);
-  if (offset == -1)
+  if ((ftruncate(GetFileDescriptor(file_info),offset) == -1) ||
+      (lseek(GetFileDescriptor(file_info),0,SEEK_SET) == -1))
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "unable to seek keyring `%s': %s",GetFilePath(file_info),
@@ -483,26 +592,60 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
-  status&=WriteFile32Bits(file_info,keyring_info->signature);
-  status&=WriteFile32Bits(file_info,0U);
-  status&=WriteFile16Bits(file_info,keyring_info->protocol_major);
-  status&=WriteFile16Bits(file_info,keyring_info->protocol_minor);
-  status&=WriteFile64Bits(file_info,(WizardSizeType) keyring_info->timestamp);
-  length=GetStringInfoLength(keyring_info->id);
-  status&=WriteFile32Bits(file_info,(size_t) length);
-  status&=WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->id),length);
-  length=GetStringInfoLength(keyring_info->key);
-  status&=WriteFile32Bits(file_info,(size_t) length);
-  status&=WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->key),
-    length);
-  length=GetStringInfoLength(keyring_info->nonce);
-  status&=WriteFile32Bits(file_info,(size_t) length);
-  status&=WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->nonce),
-    length);
-  if (status == WizardFalse)
-    (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-      "unable to write keyring `%s': %s",GetFilePath(file_info),
-      strerror(errno));
+  status=WizardTrue;
+  if (offset == 0)
+    {
+      magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
+      status=WriteFileChunk(file_info,GetStringInfoDatum(magick),
+        GetStringInfoLength(magick));
+      magick=DestroyStringInfo(magick);
+      filetype=GetWizardMagick((unsigned char *) KeyringFiletype,
+        strlen(KeyringFiletype));
+      if (status != WizardFalse)
+        status=WriteFileChunk(file_info,GetStringInfoDatum(filetype),
+          GetStringInfoLength(filetype));
+      filetype=DestroyStringInfo(filetype);
+    }
+  if (lseek(GetFileDescriptor(file_info),0,SEEK_END) == -1)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "unable to seek keyring `%s': %s",GetFilePath(file_info),
+        strerror(errno));
+      file_info=DestroyFileInfo(file_info,exception);
+      return(WizardFalse);
+    }
+  /*
+    Stop at the first failure: a record may be cut short but has no holes.
+  */
+  if ((status == WizardFalse) ||
+      (WriteFile32Bits(file_info,keyring_info->signature) == WizardFalse) ||
+      (WriteFile32Bits(file_info,0U) == WizardFalse) ||
+      (WriteFile16Bits(file_info,keyring_info->protocol_major) ==
+        WizardFalse) ||
+      (WriteFile16Bits(file_info,keyring_info->protocol_minor) ==
+        WizardFalse) ||
+      (WriteFile64Bits(file_info,(WizardSizeType) keyring_info->timestamp) ==
+        WizardFalse) ||
+      (WriteFile32Bits(file_info,GetStringInfoLength(keyring_info->id)) ==
+        WizardFalse) ||
+      (WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->id),
+        GetStringInfoLength(keyring_info->id)) == WizardFalse) ||
+      (WriteFile32Bits(file_info,GetStringInfoLength(keyring_info->key)) ==
+        WizardFalse) ||
+      (WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->key),
+        GetStringInfoLength(keyring_info->key)) == WizardFalse) ||
+      (WriteFile32Bits(file_info,GetStringInfoLength(keyring_info->nonce)) ==
+        WizardFalse) ||
+      (WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->nonce),
+        GetStringInfoLength(keyring_info->nonce)) == WizardFalse))
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "unable to write keyring `%s': %s",GetFilePath(file_info),
+        strerror(errno));
+      (void) ftruncate(GetFileDescriptor(file_info),offset);
+      file_info=DestroyFileInfo(file_info,exception);
+      return(WizardFalse);
+    }
   file_info=DestroyFileInfo(file_info,exception);
   return(WizardTrue);
 }
-- 
2.43.0


From 9091dae7a706bd5655ecd635f3830c2e6d65808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:56 +0000
Subject: [PATCH 13/74] fix: name the damaged reservoir before its file info is
 destroyed

A damaged random reservoir aborted the program: the error message read the path
of a file info that was already released.
---
 wizard/random.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index 95d77c7..bc42581 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -690,9 +690,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
@@ -707,9 +707,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     {
       filetype=DestroyStringInfo(filetype);
       target=DestroyStringInfo(target);
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
@@ -728,9 +728,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
   status&=ReadFile32Bits(file_info,&length);
   if (status == WizardFalse)
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
-- 
2.43.0


From ffa6a431411b29f25892e7995a730b512479ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:56 +0000
Subject: [PATCH 14/74] fix: reject a random reservoir that claims more bytes
 than it has

A damaged length field made the program ask for up to four gigabytes and exit.
---
 wizard/random.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/random.c b/wizard/random.c
index bc42581..1e6ab50 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -726,7 +726,8 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
       random_info->timestamp=(time_t) timestamp;
     }
   status&=ReadFile32Bits(file_info,&length);
-  if (status == WizardFalse)
+  if ((status == WizardFalse) ||
+      ((WizardOffsetType) length > GetFileProperties(file_info)->st_size))
     {
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
-- 
2.43.0


From 04133333524fd02b9efc2065d4186bde4e1a5f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:56 +0000
Subject: [PATCH 15/74] fix: skip the random device if it cannot be read

The error code of the read was used as the number of bytes.
---
 wizard/random.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index 1e6ab50..78ba21a 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -564,8 +564,11 @@ static StringInfo *GenerateEntropicChaos(RandomInfo *random_info,
         if (close(file) == -1)
           (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
             "unable to close file `%s': %s",filename,strerror(errno));
-        SetStringInfoLength(chaos,(size_t) count);
-        ConcatenateStringInfo(entropy,chaos);
+        if (count > 0)
+          {
+            SetStringInfoLength(chaos,(size_t) count);
+            ConcatenateStringInfo(entropy,chaos);
+          }
       }
     if (gather_true_random != WizardFalse)
       {
@@ -597,8 +600,11 @@ static StringInfo *GenerateEntropicChaos(RandomInfo *random_info,
               (void) ThrowWizardException(exception,GetWizardModule(),
                 RandomError,"unable to close file `%s': %s",filename,
                 strerror(errno));
-            SetStringInfoLength(chaos,(size_t) count);
-            ConcatenateStringInfo(entropy,chaos);
+            if (count > 0)
+              {
+                SetStringInfoLength(chaos,(size_t) count);
+                ConcatenateStringInfo(entropy,chaos);
+              }
           }
       }
   }
-- 
2.43.0


From ccc39df05a10e5615fda5bac1391e948e197a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:56 +0000
Subject: [PATCH 16/74] fix: append at the end of the string info

ConcatenateStringInfo() copied the source beyond the new end.  The bytes of the
random device, which come last, never reached the seed of a random generator.
---
 wizard/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/string.c b/wizard/string.c
index d2b5970..226b511 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -727,7 +727,8 @@ WizardExport void ConcatenateStringInfo(StringInfo *string_info,
       sizeof(*string_info->datum));
   if (string_info->datum == (unsigned char *) NULL)
     ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-  (void) memcpy(string_info->datum+length,source->datum,source->length);
+  (void) memcpy(string_info->datum+length-source->length,source->datum,
+    source->length);
 }
 
 /*
-- 
2.43.0


From 6c384454e6d121f6c21ba5ed3c856fd678565de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:56 +0000
Subject: [PATCH 17/74] fix: provide a random generator if its reservoir cannot
 be saved

The generator is seeded by then and no caller expects to get none.  A home
directory that is not writable crashed every command.
---
 wizard/random.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index 78ba21a..6786b9d 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -170,9 +170,6 @@ WizardExport RandomInfo *AcquireRandomInfo(const HashType hash)
   RandomInfo
     *random_info;
 
-  WizardBooleanType
-    status;
-
   StringInfo
     *entropy,
     *key,
@@ -222,14 +219,9 @@ WizardExport RandomInfo *AcquireRandomInfo(const HashType hash)
       "reservoir `%s'");
   InitializeHMAC(random_info->hmac_info,entropy);
   SetStringInfo(random_info->reservoir,GetHMACDigest(random_info->hmac_info));
-  status=SaveEntropyToReservoir(random_info,exception);
+  (void) SaveEntropyToReservoir(random_info,exception);
   entropy=DestroyStringInfo(entropy);
   exception=DestroyExceptionInfo(exception);
-  if (status == WizardFalse)
-    {
-      random_info=DestroyRandomInfo(random_info);
-      return((RandomInfo *) NULL);
-    }
   /*
     Seed pseudo random number generator.
   */
-- 
2.43.0


From 6bdf2d0bbc30f891b75766e404293311538ed398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:43 +0000
Subject: [PATCH 18/74] fix: report a generated key that could not be stored in
 the keyring

---
 wizard/secret.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/secret.c b/wizard/secret.c
index 38f0966..d55c5db 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -332,7 +332,7 @@ WizardExport WizardBooleanType GenerateSecretKey(SecretInfo *secret_info,
   status=ImportKeyringKey(secret_info->keyring_info,exception);
   phrase=DestroyStringInfo(phrase);
   key=DestroyStringInfo(key);
-  return(WizardTrue);
+  return(status);
 }
 
 /*
-- 
2.43.0


From 1e0288b2bc9df7690aa5c7d71f8fbc21cf69a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:02 +0000
Subject: [PATCH 19/74] fix: make room for the next read of a stream that
 cannot seek

---
 wizard/blob.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 1e97be3..bd6efc2 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -606,12 +606,12 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
             if (errno != EINTR)
               break;
           }
-        if (~((size_t) i) < (quantum+1))
+        if (~((size_t) i) < (count+quantum+1))
           {
             blob=(unsigned char *) RelinquishWizardMemory(blob);
             break;
           }
-        blob=(unsigned char *) ResizeQuantumMemory(blob,i+quantum+1,
+        blob=(unsigned char *) ResizeQuantumMemory(blob,i+count+quantum+1,
           sizeof(*blob));
         if ((size_t) (i+count) >= extent)
           break;
-- 
2.43.0


From 5fc12a890a79a2593d0a8f8d3bbe5c9038f3842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:02 +0000
Subject: [PATCH 20/74] fix: report a read error of a stream that cannot seek

---
 wizard/blob.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wizard/blob.c b/wizard/blob.c
index bd6efc2..f90c160 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -600,6 +600,14 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
       {
         errno=0;
         count=read(file,blob+i,quantum);
+        if ((count < 0) && (errno != EINTR))
+          {
+            (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
+              "unable to read file `%s': %s",filename,strerror(errno));
+            (void) close(file);
+            blob=(unsigned char *) RelinquishWizardMemory(blob);
+            return(NULL);
+          }
         if (count <= 0)
           {
             count=0;
-- 
2.43.0


From 6a3994c6a5d0dcc1a14fe7662e7c49be30bdd037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:47 +0000
Subject: [PATCH 21/74] fix: carry the last register of SHA2-224 to the next
 block

---
 wizard/sha2224.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/sha2224.c b/wizard/sha2224.c
index bf17f6d..54cf2cb 100644
--- a/wizard/sha2224.c
+++ b/wizard/sha2224.c
@@ -566,6 +566,7 @@ static void TransformSHA2224(SHA2224Info *sha_info)
   sha_info->accumulator[4]=Trunc32(sha_info->accumulator[4]+E);
   sha_info->accumulator[5]=Trunc32(sha_info->accumulator[5]+F);
   sha_info->accumulator[6]=Trunc32(sha_info->accumulator[6]+G);
+  sha_info->accumulator[7]=Trunc32(sha_info->accumulator[7]+H);
   /*
     Reset working registers.
   */
-- 
2.43.0


From adae16123234565582710f8904144cbed67aaae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:32 +0000
Subject: [PATCH 22/74] fix: accept the documented -(de)compress option

Options had to start with a letter, so the option was taken for a file name
and every utility printed its usage instead.
---
 wizard/option.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/option.c b/wizard/option.c
index 4433680..60d2e92 100644
--- a/wizard/option.c
+++ b/wizard/option.c
@@ -335,7 +335,7 @@ WizardExport WizardBooleanType IsWizardOption(const char *option)
   if (strlen(option) == 1)
     return(WizardFalse);
   option++;
-  if (isalpha((int) ((unsigned char) *option)) == 0)
+  if ((isalpha((int) ((unsigned char) *option)) == 0) && (*option != '('))
     return(WizardFalse);
   return(WizardTrue);
 }
-- 
2.43.0


From 065591b1decc9e6931356e90c350e37e40640c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:32 +0000
Subject: [PATCH 23/74] fix: parse the argument of -key-length

The option itself was converted, so the key always had no bytes at all.
A second encipher with the same passphrase then never ended.
---
 utilities/decipher.c | 2 +-
 utilities/encipher.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index d091e26..10b3f31 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -404,7 +404,7 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
               ThrowCipherException(OptionError,"missing key length: `%s'",
                 option);
             content_info->key_length=(unsigned int) StringToDouble(
-              option,(char **) NULL);
+              argv[i],(char **) NULL);
             break;
           }
         if (LocaleCompare("keyring",option+1) == 0)
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 3183cd4..d4d3175 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -405,7 +405,7 @@ WizardExport WizardBooleanType EncipherCommand(int argc,char **argv,
               ThrowCipherException(OptionError,"missing key length: `%s'",
                 option);
             content_info->key_length=(unsigned int) StringToDouble(
-              option,(char **) NULL);
+              argv[i],(char **) NULL);
             break;
           }
         if (LocaleCompare("keyring",option+1) == 0)
-- 
2.43.0


From 3ae168151c56971a044d403692208641acc9cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:32 +0000
Subject: [PATCH 24/74] fix: recognize the end of the ciphertext

A last chunk whose padding made it a full chunk was written with its padding.
The block of padding behind a full last chunk was taken for another chunk when
there was no message digest or a short one.  An incomplete chunk was ignored.
---
 utilities/decipher.c | 113 +++++++++++++++++++++++++++++++++++++------
 utilities/encipher.c |  11 ++++-
 2 files changed, 107 insertions(+), 17 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index 10b3f31..896c760 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -619,10 +619,41 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
 %    o exception: return any exceptions in this structure.
 %
 */
+static ssize_t ReadCiphertext(BlobInfo *blob_info,StringInfo *lookahead,
+  const size_t length,unsigned char *data)
+{
+  size_t
+    extent;
+
+  /*
+    Return the bytes we already looked at before we read from the blob.
+  */
+  extent=GetStringInfoLength(lookahead);
+  if (extent > length)
+    extent=length;
+  if (extent != 0)
+    {
+      (void) memcpy(data,GetStringInfoDatum(lookahead),extent);
+      (void) memmove(GetStringInfoDatum(lookahead),
+        GetStringInfoDatum(lookahead)+extent,GetStringInfoLength(lookahead)-
+        extent);
+      SetStringInfoLength(lookahead,GetStringInfoLength(lookahead)-extent);
+    }
+  if (extent == length)
+    return((ssize_t) extent);
+  return((ssize_t) extent+ReadBlobChunk(blob_info,length-extent,data+extent));
+}
+
 static WizardBooleanType DecipherContent(ContentInfo *content_info,
   const char *cipher_filename,const char *plain_filename,
   const WizardBooleanType compress,ExceptionInfo *exception)
 {
+#define ThrowCorruptChunkException() \
+{ \
+  (void) FormatLocaleString(message,WizardPathExtent,"corrupt cipher chunk " \
+    "#%.20g `%s'",(double) chunk,cipher_filename); \
+  ThrowDecipherContentException(FileError,"%s: `%s'",message); \
+}
 #define ThrowDecipherContentException(asperity,tag,context) \
 { \
   (void) ThrowWizardException(exception,GetWizardModule(),asperity, \
@@ -639,6 +670,7 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   size_t
     blocksize,
     length,
+    overhead,
     pad;
 
   ssize_t
@@ -647,12 +679,18 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   StringInfo
     *ciphertext,
     *hmac,
+    *lookahead,
     *plaintext;
 
   size_t
     chunk;
 
+  unsigned char
+    padding,
+    type;
+
   WizardBooleanType
+    padded,
     status;
 
   /*
@@ -730,47 +768,93 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
       SetCipherNonce(content_info->cipher_info,nonce);
       nonce=DestroyStringInfo(nonce);
     }
+  overhead=0;
   hmac=(StringInfo *) NULL;
   if (content_info->hmac != NoHash)
     {
       content_info->hmac_info=AcquireHMACInfo(content_info->hmac);
       hmac=AcquireStringInfo(GetHMACDigestsize(content_info->hmac_info));
+      overhead+=GetStringInfoLength(hmac);
     }
   entropy=content_info->entropy;
   if (content_info->entropy != NoEntropy)
-    content_info->entropy_info=AcquireEntropyInfo(content_info->entropy,
-      content_info->level);
+    {
+      content_info->entropy_info=AcquireEntropyInfo(content_info->entropy,
+        content_info->level);
+      overhead++;
+    }
   blocksize=GetCipherBlocksize(content_info->cipher_info);
   pad=blocksize-content_info->chunksize % blocksize;
   if (pad == blocksize)
     pad=0;
   ciphertext=AcquireStringInfo(content_info->chunksize);
+  lookahead=AcquireStringInfo(0);
   for (chunk=0; ; chunk++)
   {
     if (content_info->hmac != NoHash)
       {
         length=GetStringInfoLength(hmac);
-        count=ReadBlobChunk(content_info->cipherblob,length,GetStringInfoDatum(
-          hmac));
+        count=ReadCiphertext(content_info->cipherblob,lookahead,length,
+          GetStringInfoDatum(hmac));
         if (count <= 0)
           break;
+        if (count != (ssize_t) length)
+          ThrowCorruptChunkException();
       }
     if (content_info->entropy != NoEntropy)
-      entropy=(EntropyType) ReadBlobByte(content_info->cipherblob);
+      {
+        count=ReadCiphertext(content_info->cipherblob,lookahead,1,&type);
+        if ((count <= 0) && (content_info->hmac == NoHash))
+          break;
+        if (count <= 0)
+          ThrowCorruptChunkException();
+        entropy=(EntropyType) type;
+      }
     length=content_info->chunksize;
     if (content_info->mode != CFBMode)
       length+=pad;
     SetStringInfoLength(ciphertext,length);
-    count=ReadBlobChunk(content_info->cipherblob,length,GetStringInfoDatum(
-      ciphertext));
-    if (count <= 0)
+    count=ReadCiphertext(content_info->cipherblob,lookahead,length,
+      GetStringInfoDatum(ciphertext));
+    if ((count <= 0) && (overhead == 0))
       break;
+    if ((count <= 0) ||
+        ((content_info->mode != CFBMode) && ((count % blocksize) != 0)))
+      ThrowCorruptChunkException();
+    padded=WizardFalse;
+    if (content_info->mode != CFBMode)
+      padded=(pad != 0) || (count != (ssize_t) length) ? WizardTrue :
+        WizardFalse;
     length=(size_t) count;
     SetStringInfoLength(ciphertext,length);
+    if ((content_info->mode != CFBMode) && (padded == WizardFalse))
+      {
+        /*
+          A full chunk: it is padded only if it is the last one, a full last
+          chunk is followed by a block of padding.
+        */
+        SetStringInfoLength(lookahead,overhead+blocksize);
+        count=ReadBlobChunk(content_info->cipherblob,overhead+blocksize,
+          GetStringInfoDatum(lookahead));
+        SetStringInfoLength(lookahead,(size_t) count);
+        if (count == 0)
+          padded=WizardTrue;
+        else
+          if (count != (ssize_t) (overhead+blocksize))
+            {
+              if (count != (ssize_t) blocksize)
+                ThrowCorruptChunkException();
+              SetStringInfoLength(lookahead,0);
+            }
+      }
     plaintext=DecipherCipher(content_info->cipher_info,ciphertext);
-    if ((content_info->mode != CFBMode) &&
-        ((pad != 0) || (EOFBlob(content_info->cipherblob) != WizardFalse)))
-      length-=GetStringInfoDatum(plaintext)[length-1]+1;
+    if (padded != WizardFalse)
+      {
+        padding=GetStringInfoDatum(plaintext)[length-1];
+        if (padding >= blocksize)
+          ThrowCorruptChunkException();
+        length-=padding+1;
+      }
     SetStringInfoLength(plaintext,length);
     if (entropy != NoEntropy)
       {
@@ -786,11 +870,7 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
         ConstructHMAC(content_info->hmac_info,GetAuthenticateKey(
           content_info->authenticate_info),plaintext);
         if (CompareStringInfo(hmac,GetHMACDigest(content_info->hmac_info)) != 0)
-          {
-            (void) FormatLocaleString(message,WizardPathExtent,"corrupt cipher "
-              "chunk #%.20g `%s'",(double) chunk,cipher_filename);
-            ThrowDecipherContentException(FileError,"%s: `%s'",message);
-          }
+          ThrowCorruptChunkException();
       }
     count=WriteBlobChunk(content_info->plainblob,length,GetStringInfoDatum(
       plaintext));
@@ -814,6 +894,7 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   }
 #endif
   ciphertext=DestroyStringInfo(ciphertext);
+  lookahead=DestroyStringInfo(lookahead);
   if (content_info->hmac != NoHash)
     hmac=DestroyStringInfo(hmac);
   return(WizardTrue);
diff --git a/utilities/encipher.c b/utilities/encipher.c
index d4d3175..11046e8 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -887,8 +887,17 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
   if ((content_info->mode != CFBMode) && (pad == blocksize))
     {
       /*
-        Cryptographic padding.
+        Cryptographic padding: without a HMAC and entropy nothing but its length
+        tells a chunk from the padding of a full one so encipher it as a chunk.
       */
+      if ((content_info->hmac == NoHash) &&
+          (content_info->entropy == NoEntropy) &&
+          (length == content_info->chunksize))
+        {
+          length=0;
+          SetStringInfoLength(plaintext,length);
+          ciphertext=EncipherCipher(content_info->cipher_info,plaintext);
+        }
       count=WriteBlobChunk(content_info->cipherblob,blocksize,
         GetStringInfoDatum(ciphertext)+length);
       if (count != (ssize_t) blocksize)
-- 
2.43.0


From d27a854aaa88ecdb6f7c4119d97696897d7d72a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:17 +0000
Subject: [PATCH 25/74] fix: read file content into a buffer of the size asked
 for

The buffer shrinks to a short read, and the next read of a file that has grown
wrote past its end.
---
 utilities/digest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utilities/digest.c b/utilities/digest.c
index 39a420c..3f75be1 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -422,6 +422,7 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
                     InitializeHash(hash_info);
                     for (content=AcquireStringInfo(WizardMaxBufferExtent); ; )
                     {
+                      SetStringInfoLength(content,WizardMaxBufferExtent);
                       count=ReadBlobChunk(content_blob,WizardMaxBufferExtent,
                         GetStringInfoDatum(content));
                       if (count <= 0)
@@ -720,6 +721,7 @@ WizardExport WizardBooleanType DigestCommand(int argc,char **argv,
     extent=0;
     for (content=AcquireStringInfo(WizardMaxBufferExtent); ; )
     {
+      SetStringInfoLength(content,WizardMaxBufferExtent);
       count=ReadBlobChunk(content_blob,WizardMaxBufferExtent,GetStringInfoDatum(
         content));
       if (count <= 0)
-- 
2.43.0


From a6b18ea734eec517f5adf3777c4477ce376324f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:30 +0000
Subject: [PATCH 26/74] fix: verify digests of files with blanks or markup in
 their names

The recorded name was cut at a blank and its markup was not resolved, so the
file was not found.  A very long name was written past its buffer.
---
 utilities/digest.c | 58 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index 3f75be1..9b5bf88 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -114,6 +114,54 @@ static void DigestUsage()
   Exit(0);
 }
 
+static void RestoreXMLContent(char *content)
+{
+  static const struct
+  {
+    const char
+      *entity;
+
+    const char
+      code;
+  } entities[] =
+    {
+      { "&amp;", '&' },
+      { "&lt;", '<' },
+      { "&gt;", '>' },
+      { "&quot;", '"' },
+      { "&#xD;", '\r' },
+      { (const char *) NULL, '\0' }
+    };
+
+  char
+    *q;
+
+  const char
+    *p;
+
+  ssize_t
+    i;
+
+  /*
+    Substitute the characters for the predefined entities.
+  */
+  q=content;
+  for (p=content; *p != '\0'; )
+  {
+    for (i=0; entities[i].entity != (const char *) NULL; i++)
+      if (strncmp(p,entities[i].entity,strlen(entities[i].entity)) == 0)
+        break;
+    if (entities[i].entity == (const char *) NULL)
+      {
+        *q++=(*p++);
+        continue;
+      }
+    *q++=entities[i].code;
+    p+=strlen(entities[i].entity);
+  }
+  *q='\0';
+}
+
 static WizardBooleanType AuthenticateDigest(int argc,char **argv,
   ExceptionInfo *exception)
 {
@@ -169,6 +217,7 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
     *content;
 
   WizardBooleanType
+    quoted,
     status;
 
   status=WizardFalse;
@@ -284,13 +333,17 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
               Get the key.
             */
             p=key;
+            quoted=WizardFalse;
             do
             {
-              if (isspace((int) ((unsigned char) c)) != 0)
+              if (c == (int) '"')
+                quoted=quoted == WizardFalse ? WizardTrue : WizardFalse;
+              if ((isspace((int) ((unsigned char) c)) != 0) &&
+                  (quoted == WizardFalse))
                 break;
               if (c == (int) '>')
                 break;
-              if ((size_t) (p-key) < WizardPathExtent)
+              if ((size_t) (p-key) < (WizardPathExtent-1))
                 *p++=(char) c;
               c=ReadBlobByte(digest_blob);
             } while (c != EOF);
@@ -379,6 +432,7 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
                 if (LocaleNCompare(key,"rdf:about",9) == 0)
                   {
                     StripString(key+10);
+                    RestoreXMLContent(key+10);
                     if (path != (char *) NULL)
                       path=DestroyString(path);
                     path=ConstantString(key+10);
-- 
2.43.0


From 9efdaeac5a32452ba9c0b92bf572a24e43e1a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:18 +0000
Subject: [PATCH 27/74] fix: end on a damaged cipher packet

A byte that is neither printable nor blank in the header was examined forever,
an unknown property was too, and a long key was written past its buffer.  The
block of padding behind a full last chunk was not examined.
---
 utilities/content.c  | 9 +++++++--
 utilities/decipher.c | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index 8bd4a32..f6fd034 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -256,7 +256,7 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
               break;
             if (c == (int) '=')
               break;
-            if ((size_t) (p-key) < WizardPathExtent)
+            if ((size_t) (p-key) < (WizardPathExtent-1))
               *p++=(char) c;
             c=ReadBlobByte(cipher_blob);
           } while (c != EOF);
@@ -332,6 +332,8 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
         c=ReadBlobByte(cipher_blob);
     }
     options=DestroyString(options);
+    if ((isgraph(c) == WizardFalse) && (c != EOF))
+      c=ReadBlobByte(cipher_blob);
   }
   if ((bytes == 0) || (digest == (char *) NULL))
     {
@@ -389,7 +391,10 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
     tag=GetXMLTreeTag(node);
     content=GetXMLTreeContent(node);
     if (strncmp(tag,"cipher:",7) != 0)
-      continue;
+      {
+        node=GetXMLTreeSibling(node);
+        continue;
+      }
     tag+=7;
     switch (*tag)
     {
diff --git a/utilities/decipher.c b/utilities/decipher.c
index 896c760..cc647a8 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -844,10 +844,14 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
             {
               if (count != (ssize_t) blocksize)
                 ThrowCorruptChunkException();
+              ConcatenateStringInfo(ciphertext,lookahead);
               SetStringInfoLength(lookahead,0);
             }
       }
     plaintext=DecipherCipher(content_info->cipher_info,ciphertext);
+    if ((GetStringInfoLength(plaintext) > length) &&
+        (GetStringInfoDatum(plaintext)[length+blocksize-1] != (blocksize-1)))
+      ThrowCorruptChunkException();
     if (padded != WizardFalse)
       {
         padding=GetStringInfoDatum(plaintext)[length-1];
-- 
2.43.0


From b9d87be0f9873465104b7e40423fe3b8e247155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:55 +0000
Subject: [PATCH 28/74] fix: open a stream at its first byte or not at all

If the position could not be restored after the magic number was read, the
first bytes were lost.  A compressed file that could not be opened again was
used as a null stream.  A named pipe was never closed.
---
 wizard/blob.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index f90c160..e10b4cd 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1079,7 +1079,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
-          blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+          blob_info=DestroyBlob(blob_info);
           return((BlobInfo *) NULL);
         }
 #if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
@@ -1110,7 +1110,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
-          blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+          blob_info=DestroyBlob(blob_info);
           return((BlobInfo *) NULL);
         }
       blob_info->type=PipeStream;
@@ -1128,11 +1128,10 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
-          blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+          blob_info=DestroyBlob(blob_info);
           return((BlobInfo *) NULL);
         }
       blob_info->type=FileStream;
-      blob_info->exempt=WizardTrue;
       return(blob_info);
     }
 #endif
@@ -1158,7 +1157,14 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
           (void) memset(magick,0,sizeof(magick));
           count=(ssize_t) fread(magick,1,sizeof(magick),
             blob_info->file_info.file);
-          (void) fseek(blob_info->file_info.file,-((off_t) count),SEEK_CUR);
+          if ((ferror(blob_info->file_info.file) != 0) ||
+              (fseek(blob_info->file_info.file,-((off_t) count),SEEK_CUR) != 0))
+            {
+              (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
+                "unable to read file `%s': %s",filename,strerror(errno));
+              blob_info=DestroyBlob(blob_info);
+              return((BlobInfo *) NULL);
+            }
 #if defined(WIZARDSTOOLKIT_POSIX_SUPPORT)
           (void) fflush(blob_info->file_info.file);
 #endif
@@ -1171,6 +1177,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
               if (blob_info->file_info.file != (FILE *) NULL)
                 (void) fclose(blob_info->file_info.file);
               blob_info->file_info.file=(FILE *) NULL;
+              blob_info->type=UndefinedStream;
               blob_info->file_info.gzfile=gzopen(filename,"rb");
               if (blob_info->file_info.gzfile != (gzFile) NULL)
                 blob_info->type=ZipStream;
@@ -1183,6 +1190,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
               if (blob_info->file_info.file != (FILE *) NULL)
                 (void) fclose(blob_info->file_info.file);
               blob_info->file_info.file=(FILE *) NULL;
+              blob_info->type=UndefinedStream;
               blob_info->file_info.bzfile=BZ2_bzopen(filename,"r");
               if (blob_info->file_info.bzfile != (BZFILE *) NULL)
                 blob_info->type=BZipStream;
@@ -1258,7 +1266,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
         "unable to open file `%s': %s",filename,strerror(errno));
-      blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+      blob_info=DestroyBlob(blob_info);
       return((BlobInfo *) NULL);
     }
   return(blob_info);
-- 
2.43.0


From 874ca47f27bb35e8643eb59a5b3000ddd7c3a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:55 +0000
Subject: [PATCH 29/74] fix: report failed transfers when a stream is closed

Later results replaced an earlier failure, and read errors were taken for the
end of the file.
---
 wizard/blob.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index e10b4cd..4888721 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -248,9 +248,8 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
       blob_info->filename);
   if (blob_info->type == UndefinedStream)
     return(WizardTrue);
-  if (SyncBlob(blob_info) != 0)
+  if ((SyncBlob(blob_info) != 0) && (blob_info->type != ZipStream))
     ThrowBlobException(blob_info);
-  status=blob_info->status;
   switch (blob_info->type)
   {
     case UndefinedStream:
@@ -259,7 +258,7 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     case FileStream:
     case PipeStream:
     {
-      if ((status != 0) && (ferror(blob_info->file_info.file) != 0))
+      if (ferror(blob_info->file_info.file) != 0)
         ThrowBlobException(blob_info);
       break;
     }
@@ -286,7 +285,6 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     case BlobStream:
       break;
   }
-  blob_info->status=status;
   blob_info->size=GetBlobSize(blob_info);
   blob_info->eof=WizardFalse;
   blob_info->error=0;
@@ -340,7 +338,6 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
       break;
   }
   (void) DetachBlob(blob_info);
-  blob_info->status=status;
   return(blob_info->status != 0 ? WizardFalse : WizardTrue);
 }
 
@@ -1383,6 +1380,8 @@ WizardExport ssize_t ReadBlob(BlobInfo *blob_info,const size_t length,
         {
           count=(ssize_t) gzread(blob_info->file_info.gzfile,q,(unsigned int)
             length);
+          if (count < 0)
+            ThrowBlobException(blob_info);
           break;
         }
         case 4:
@@ -1427,6 +1426,8 @@ WizardExport ssize_t ReadBlob(BlobInfo *blob_info,const size_t length,
     {
 #if defined(WIZARDSTOOLKIT_BZLIB_DELEGATE)
       count=(ssize_t) BZ2_bzread(blob_info->file_info.bzfile,q,(int) length);
+      if (count < 0)
+        ThrowBlobException(blob_info);
 #endif
       break;
     }
@@ -1574,6 +1575,8 @@ WizardExport ssize_t ReadBlobChunk(BlobInfo *blob_info,const size_t length,
         count=0;
         if (errno != EINTR)
           break;
+        if (blob_info->type == FileStream)
+          clearerr(blob_info->file_info.file);
       }
   }
   return(i);
@@ -2170,6 +2173,8 @@ WizardExport ssize_t WriteBlobChunk(BlobInfo *blob_info,const size_t length,
         count=0;
         if (errno != EINTR)
           break;
+        if (blob_info->type == FileStream)
+          clearerr(blob_info->file_info.file);
       }
   }
   return(i);
-- 
2.43.0


From 9bbcca9ad30ba028b759d4f4e72d7742bff2b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:55 +0000
Subject: [PATCH 30/74] fix: report failures when a bzip2 stream is completed

The library closes the file without telling whether its last part was written.
---
 wizard/blob.c | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 4888721..1f0cb92 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -137,6 +137,9 @@ struct _BlobInfo
   BlobFileInfo
     file_info;
 
+  FILE
+    *bzip_file;
+
   struct stat
     properties;
 
@@ -330,7 +333,22 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     case BZipStream:
     {
 #if defined(WIZARDSTOOLKIT_BZLIB_DELEGATE)
-      BZ2_bzclose(blob_info->file_info.bzfile);
+      if (blob_info->bzip_file == (FILE *) NULL)
+        BZ2_bzclose(blob_info->file_info.bzfile);
+      else
+        {
+          BZ2_bzWriteClose(&status,blob_info->file_info.bzfile,0,
+            (unsigned int *) NULL,(unsigned int *) NULL);
+          if (status != BZ_OK)
+            {
+              ThrowBlobException(blob_info);
+              BZ2_bzWriteClose(&status,blob_info->file_info.bzfile,1,
+                (unsigned int *) NULL,(unsigned int *) NULL);
+            }
+          if (fclose(blob_info->bzip_file) != 0)
+            ThrowBlobException(blob_info);
+          blob_info->bzip_file=(FILE *) NULL;
+        }
 #endif
       break;
     }
@@ -1238,9 +1256,25 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
 #if defined(WIZARDSTOOLKIT_BZLIB_DELEGATE)
         if ((compress != WizardFalse) && (LocaleCompare(extension,"bz2") == 0))
           {
-            blob_info->file_info.bzfile=BZ2_bzopen(filename,"w");
-            if (blob_info->file_info.bzfile != (BZFILE *) NULL)
-              blob_info->type=BZipStream;
+            int
+              error;
+
+            /*
+              BZ2_bzclose() does not tell whether the file is complete.
+            */
+            blob_info->bzip_file=fopen_utf8(filename,"wb");
+            if (blob_info->bzip_file != (FILE *) NULL)
+              {
+                blob_info->file_info.bzfile=BZ2_bzWriteOpen(&error,
+                  blob_info->bzip_file,9,0,0);
+                if (blob_info->file_info.bzfile != (BZFILE *) NULL)
+                  blob_info->type=BZipStream;
+                else
+                  {
+                    (void) fclose(blob_info->bzip_file);
+                    blob_info->bzip_file=(FILE *) NULL;
+                  }
+              }
           }
         else
 #endif
-- 
2.43.0


From ba4aa0df3667fc51920a986055af4ebb27dce201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:37 +0000
Subject: [PATCH 31/74] fix: fail if a stream of content cannot be closed

The command printed a message and reported success.
---
 utilities/decipher.c | 17 +++++++++++++----
 utilities/encipher.c | 15 +++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index cc647a8..2f8b501 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -723,7 +723,10 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
         return(WizardFalse);
       status=GetContentInfo(content_info,properties,exception);
       if (CloseBlob(properties) == WizardFalse)
-        ThrowFileException(exception,FileError,content_info->properties);
+        {
+          ThrowFileException(exception,FileError,content_info->properties);
+          status=WizardFalse;
+        }
       properties=DestroyBlob(properties);
     }
   if (status == WizardFalse)
@@ -883,9 +886,15 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
         "`%s': `%s'",cipher_filename);
   }
   if (CloseBlob(content_info->cipherblob) == WizardFalse)
-    ThrowFileException(exception,FileError,content_info->content);
+    {
+      ThrowFileException(exception,FileError,cipher_filename);
+      status=WizardFalse;
+    }
   if (CloseBlob(content_info->plainblob) == WizardFalse)
-    ThrowFileException(exception,FileError,content_info->content);
+    {
+      ThrowFileException(exception,FileError,plain_filename);
+      status=WizardFalse;
+    }
 #if defined(WIZARDSTOOLKIT_HAVE_UTIME)
   {
     struct utimbuf
@@ -901,7 +910,7 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   lookahead=DestroyStringInfo(lookahead);
   if (content_info->hmac != NoHash)
     hmac=DestroyStringInfo(hmac);
-  return(WizardTrue);
+  return(status);
 }
 
 /*
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 11046e8..8b4a442 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -807,7 +807,7 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
         return(WizardFalse);
       count=WriteBlob(properties,length,(unsigned char *) cipher_packet);
       if (CloseBlob(properties) == WizardFalse)
-        ThrowFileException(exception,FileError,content_info->properties);
+        count=(-1);
       properties=DestroyBlob(properties);
     }
   cipher_packet=DestroyString(cipher_packet);
@@ -904,12 +904,19 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
         ThrowEncipherContentException(FileError,"unable to write ciphertext "
           "`%s': `%s'",cipher_filename);
     }
+  status=WizardTrue;
   if (CloseBlob(content_info->cipherblob) == WizardFalse)
-    ThrowFileException(exception,FileError,content_info->content);
+    {
+      ThrowFileException(exception,FileError,cipher_filename);
+      status=WizardFalse;
+    }
   if (CloseBlob(content_info->plainblob) == WizardFalse)
-    ThrowFileException(exception,FileError,content_info->content);
+    {
+      ThrowFileException(exception,FileError,plain_filename);
+      status=WizardFalse;
+    }
   plaintext=DestroyStringInfo(plaintext);
-  return(WizardTrue);
+  return(status);
 }
 
 /*
-- 
2.43.0


From 74fbac9d2fd07a417939ceac95159b516d52e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:37 +0000
Subject: [PATCH 32/74] fix: fail if a digest list is incomplete

Content that could not be read and lists that could not be written were
reported by a message only.
---
 utilities/digest.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index 9b5bf88..73b90b5 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -554,7 +554,10 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
       modify_date=DestroyString(modify_date);
   }
   if (CloseBlob(authenticate_blob) == WizardFalse)
-    status=WizardFalse;
+    {
+      ThrowFileException(exception,FileError,argv[argc-1]);
+      status=WizardFalse;
+    }
   authenticate_blob=DestroyBlob(authenticate_blob);
   if (hash == UndefinedHash)
     ThrowDigestException(OptionError,"missing a digest RDF file: `%s'",
@@ -768,7 +771,10 @@ WizardExport WizardBooleanType DigestCommand(int argc,char **argv,
     */
     content_blob=OpenBlob(argv[i],ReadBinaryBlobMode,WizardFalse,exception);
     if (content_blob == (BlobInfo *) NULL)
-      continue;
+      {
+        status=WizardFalse;
+        continue;
+      }
     properties=GetBlobProperties(content_blob);
     hash_info=AcquireHashInfo(hash);
     InitializeHash(hash_info);
@@ -829,7 +835,10 @@ WizardExport WizardBooleanType DigestCommand(int argc,char **argv,
     content=DestroyStringInfo(content);
     hash_info=DestroyHashInfo(hash_info);
     if (CloseBlob(content_blob) == WizardFalse)
-      ThrowFileException(exception,FileError,argv[i]);
+      {
+        ThrowFileException(exception,FileError,argv[i]);
+        status=WizardFalse;
+      }
     content_blob=DestroyBlob(content_blob);
     length=strlen(digest_rdf);
     count=WriteBlob(digest_blob,length,(unsigned char *) digest_rdf);
@@ -839,7 +848,10 @@ WizardExport WizardBooleanType DigestCommand(int argc,char **argv,
   }
   (void) WriteBlobString(digest_blob,"</rdf:RDF>\n");
   if (CloseBlob(digest_blob) == WizardFalse)
-    status=WizardFalse;
+    {
+      ThrowFileException(exception,FileError,argv[argc-1]);
+      status=WizardFalse;
+    }
   /*
     Free resources.
   */
-- 
2.43.0


From a10e2c25092ad09a0734e6d5ce863912ff9499e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:37 +0000
Subject: [PATCH 33/74] fix: release the arguments of a key export once

---
 utilities/keyring.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/utilities/keyring.c b/utilities/keyring.c
index 1824b37..d9f7db8 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -376,9 +376,7 @@ WizardExport WizardBooleanType KeyringCommand(int argc,char **argv,
     option=argv[i];
     if (LocaleCompare(option+1,"export") == 0)
       {
-        status=ExportKeyring(argc,argv,exception);
-        DestroyKeyring();
-        return(status);
+        return(ExportKeyring(argc,argv,exception));
       }
   }
   keyring_blob=OpenBlob(argv[argc-1],WriteBinaryBlobMode,WizardTrue,exception);
-- 
2.43.0


From 3d15e368f84abcb938777e6970c2b9ab21b9af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:06 +0000
Subject: [PATCH 34/74] fix: fail if the listing of a keyring is incomplete

A keyring that could not be opened or read, and a listing that could not be
written, were reported as success.
---
 utilities/keyring.c |  7 +++++--
 wizard/keyring.c    | 10 +++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/utilities/keyring.c b/utilities/keyring.c
index d9f7db8..8f26da1 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -485,13 +485,16 @@ WizardExport WizardBooleanType KeyringCommand(int argc,char **argv,
           break;
         }
       }
-    status=PrintKeyringProperties(argv[i],keyring_blob,exception);
+    status&=PrintKeyringProperties(argv[i],keyring_blob,exception);
   }
   if (argc == 2)
     status=PrintKeyringProperties((const char *) NULL,keyring_blob,exception);
   (void) WriteBlobString(keyring_blob,"</rdf:RDF>\n");
   if (CloseBlob(keyring_blob) == WizardFalse)
-    status=WizardFalse;
+    {
+      ThrowFileException(exception,FileError,argv[argc-1]);
+      status=WizardFalse;
+    }
   /*
     Free resources.
   */
diff --git a/wizard/keyring.c b/wizard/keyring.c
index 55388e9..f95dc19 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -720,7 +720,7 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
   WizardAssert(KeymapDomain,exception != (ExceptionInfo *) NULL);
   file_info=AcquireFileInfo(path,KeyringFilename,ReadFileMode,exception);
   if (file_info == (FileInfo *) NULL)
-    return(WizardTrue);
+    return(WizardFalse);
   keyring_rdf=AcquireString("  <keyring:Keyring rdf:about=\"");
   canonical_path=CanonicalXMLContent(GetFilePath(file_info),WizardFalse);
   if (canonical_path == (char *) NULL)
@@ -866,6 +866,14 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
         return(WizardFalse);
       }
   }
+  if (errno != 0)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "unable to read key ring file `%s': %s",GetFilePath(file_info),
+        strerror(errno));
+      file_info=DestroyFileInfo(file_info,exception);
+      return(WizardFalse);
+    }
   canonical_path=DestroyString(canonical_path);
   file_info=DestroyFileInfo(file_info,exception);
   return(WizardTrue);
-- 
2.43.0


From 10af8611db0cada81309e1b4dd3bb8ad4bba9109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:37 +0000
Subject: [PATCH 35/74] fix: do not take locks again on the way out after a
 fatal error

A failed allocation while a lock was held left the program waiting for itself.
---
 wizard/exception-private.h | 5 +++--
 wizard/exception.c         | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/wizard/exception-private.h b/wizard/exception-private.h
index 41b3a55..1086284 100644
--- a/wizard/exception-private.h
+++ b/wizard/exception-private.h
@@ -19,6 +19,7 @@
 #define _WIZARDSTOOLKIT_EXCEPTION_PRIVATE_H
 
 #include "wizard/log.h"
+#include "wizard/resource_.h"
 #include "wizard/string_.h"
 #include "wizard/wizard.h"
 
@@ -70,7 +71,7 @@ extern "C" {
   (void) FormatLocaleString(tag,WizardPathExtent,"%ld\n",(long) domain); \
   (void) FormatLocaleString(context,WizardPathExtent,"%ld\n",(long) error); \
   CatchWizardException(UndefinedException,tag,context); \
-  WizardsToolkitTerminus(); \
+  AsynchronousResourceComponentTerminus(); \
   _exit((domain << 3) | error); \
 }
 
@@ -82,7 +83,7 @@ extern "C" {
   message=GetExceptionMessage(errno); \
   CatchWizardException(severity,tag,message); \
   message=DestroyString(message); \
-  WizardsToolkitTerminus(); \
+  AsynchronousResourceComponentTerminus(); \
   _exit(127); \
 }
 
diff --git a/wizard/exception.c b/wizard/exception.c
index c32c5b2..892d10a 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -330,7 +330,7 @@ static void DefaultFatalErrorHandler(const ExceptionType severity,
     (void) fprintf(stderr," (%s)",description);
   (void) fprintf(stderr,".\n");
   (void) fflush(stderr);
-  WizardsToolkitTerminus();
+  AsynchronousResourceComponentTerminus();
   exit(severity);
 }
 
-- 
2.43.0


From c083ff0cffea27a9cc4482209b0f5c7cb7a406e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:52 +0000
Subject: [PATCH 36/74] fix: leave the arguments alone if they cannot be
 expanded

The strings of the system were released as if they had been copied.
---
 utilities/cipher-info.c | 9 ++++++---
 utilities/decipher.c    | 9 ++++++---
 utilities/digest.c      | 7 +++++--
 utilities/encipher.c    | 9 ++++++---
 utilities/keyring.c     | 7 +++++--
 5 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/utilities/cipher-info.c b/utilities/cipher-info.c
index e9fd523..803a534 100644
--- a/utilities/cipher-info.c
+++ b/utilities/cipher-info.c
@@ -159,10 +159,13 @@ WizardExport WizardBooleanType CipherInfoCommand(int argc,char **argv,
   if (argc < 2)
     CipherInfoUsage();
   status=ExpandFilenames(&argc,&argv);
-  content_info=AcquireContentInfo();
   if (status == WizardFalse)
-    ThrowCipherException(ResourceError,"memory allocation failed: `%s'",
-      strerror(errno));
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
+        "memory allocation failed: `%s'",strerror(errno));
+      return(WizardFalse);
+    }
+  content_info=AcquireContentInfo();
   for (i=1; i < argc; i++)
   {
     option=argv[i];
diff --git a/utilities/decipher.c b/utilities/decipher.c
index 2f8b501..0db66d5 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -201,10 +201,13 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
   if (argc < 3)
     DecipherUsage();
   status=ExpandFilenames(&argc,&argv);
-  content_info=AcquireContentInfo();
   if (status == WizardFalse)
-    ThrowCipherException(ResourceError,"memory allocation failed: `%s'",
-      strerror(errno));
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
+        "memory allocation failed: `%s'",strerror(errno));
+      return(WizardFalse);
+    }
+  content_info=AcquireContentInfo();
   plain_filename=(const char *) NULL;
   cipher_filename=(const char *) NULL;
   verbose=WizardFalse;
diff --git a/utilities/digest.c b/utilities/digest.c
index 73b90b5..e6f30fa 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -627,8 +627,11 @@ WizardExport WizardBooleanType DigestCommand(int argc,char **argv,
     DigestUsage();
   status=ExpandFilenames(&argc,&argv);
   if (status == WizardFalse)
-    ThrowDigestException(ResourceError,"memory allocation failed: `%s'",
-      strerror(errno));
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
+        "memory allocation failed: `%s'",strerror(errno));
+      return(WizardFalse);
+    }
   for (i=1; i < (ssize_t) (argc-1); i++)
   {
     option=argv[i];
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 8b4a442..020b33b 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -202,10 +202,13 @@ WizardExport WizardBooleanType EncipherCommand(int argc,char **argv,
   if (argc < 3)
     EncipherUsage();
   status=ExpandFilenames(&argc,&argv);
-  content_info=AcquireContentInfo();
   if (status == WizardFalse)
-    ThrowCipherException(ResourceError,"memory allocation failed: `%s'",
-      strerror(errno));
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
+        "memory allocation failed: `%s'",strerror(errno));
+      return(WizardFalse);
+    }
+  content_info=AcquireContentInfo();
   plain_filename=(const char *) NULL;
   cipher_filename=(const char *) NULL;
   compress=WizardTrue;
diff --git a/utilities/keyring.c b/utilities/keyring.c
index 8f26da1..f1ace42 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -369,8 +369,11 @@ WizardExport WizardBooleanType KeyringCommand(int argc,char **argv,
     KeyringUsage();
   status=ExpandFilenames(&argc,&argv);
   if (status == WizardFalse)
-    ThrowKeyringException(ResourceError,"memory allocation failed: `%s'",
-      strerror(errno));
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
+        "memory allocation failed: `%s'",strerror(errno));
+      return(WizardFalse);
+    }
   for (i=1; i < (argc-1); i++)
   {
     option=argv[i];
-- 
2.43.0


From 493cea0be1d780669ec77c9c46c4a235276a3e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:52 +0000
Subject: [PATCH 37/74] fix: report lack of memory instead of using a missing
 document

---
 wizard/xml-tree.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 258bb3d..251536d 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2029,6 +2029,12 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
       return((XMLTreeInfo *) NULL);
     }
   root=(XMLTreeRoot *) NewXMLTreeTag((char *) NULL);
+  if (root == (XMLTreeRoot *) NULL)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
+        "memory allocation failed `%s'",strerror(errno));
+      return((XMLTreeInfo *) NULL);
+    }
   length=strlen(xml);
   utf8=ConvertUTF16ToUTF8(xml,&length);
   if (utf8 == (char *) NULL)
-- 
2.43.0


From 452ca416f090eff5cd0ab43cd6f54e436d9697de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:52 +0000
Subject: [PATCH 38/74] fix: fail if the properties of a file cannot be read

---
 utilities/cipher-info.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/utilities/cipher-info.c b/utilities/cipher-info.c
index 803a534..844e8dc 100644
--- a/utilities/cipher-info.c
+++ b/utilities/cipher-info.c
@@ -272,13 +272,20 @@ WizardExport WizardBooleanType CipherInfoCommand(int argc,char **argv,
     content_info->content=ConstantString(argv[i]);
     content_info->cipherblob=OpenBlob(content_info->content,ReadBinaryBlobMode,
       WizardTrue,exception);
-    if (content_info->cipherblob != (BlobInfo *) NULL)
+    if (content_info->cipherblob == (BlobInfo *) NULL)
+      status=WizardFalse;
+    else
       {
-        status=GetContentInfo(content_info,content_info->cipherblob,exception);
-        if (status != WizardFalse)
+        if (GetContentInfo(content_info,content_info->cipherblob,exception) ==
+            WizardFalse)
+          status=WizardFalse;
+        else
           (void) PrintCipherProperties(content_info,stdout);
         if (CloseBlob(content_info->cipherblob) == WizardFalse)
-          ThrowFileException(exception,FileError,content_info->content);
+          {
+            ThrowFileException(exception,FileError,content_info->content);
+            status=WizardFalse;
+          }
       }
   }
   /*
-- 
2.43.0


From 8270255acd3332c6a4143b56af63f673cbbbe267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:52 +0000
Subject: [PATCH 39/74] fix: a command that failed without an explanation has
 failed nevertheless

A failure is success only if the last exception is a warning.
---
 utilities/cipher-info.c | 3 ++-
 utilities/decipher.c    | 3 ++-
 utilities/encipher.c    | 3 ++-
 utilities/keyring.c     | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/utilities/cipher-info.c b/utilities/cipher-info.c
index 844e8dc..dae0e0d 100644
--- a/utilities/cipher-info.c
+++ b/utilities/cipher-info.c
@@ -360,7 +360,8 @@ static int WizardMain(int argc,char **argv)
     if ((status == WizardFalse) ||
         (GetExceptionSeverity(exception) != UndefinedException))
       {
-        if ((GetExceptionSeverity(exception) < ErrorException) &&
+        if ((GetExceptionSeverity(exception) != UndefinedException) &&
+            (GetExceptionSeverity(exception) < ErrorException) &&
             (regard_warnings == WizardFalse))
           status=WizardTrue;
         CatchException(exception);
diff --git a/utilities/decipher.c b/utilities/decipher.c
index 0db66d5..d62c8fa 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -981,7 +981,8 @@ static int WizardMain(int argc,char **argv)
     if ((status == WizardFalse) ||
         (GetExceptionSeverity(exception) != UndefinedException))
       {
-        if ((GetExceptionSeverity(exception) < ErrorException) &&
+        if ((GetExceptionSeverity(exception) != UndefinedException) &&
+            (GetExceptionSeverity(exception) < ErrorException) &&
             (regard_warnings == WizardFalse))
           status=WizardTrue;
         CatchException(exception);
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 020b33b..a9277ed 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -987,7 +987,8 @@ static int WizardMain(int argc,char **argv)
     if ((status == WizardFalse) ||
         (GetExceptionSeverity(exception) != UndefinedException))
       {
-        if ((GetExceptionSeverity(exception) < ErrorException) &&
+        if ((GetExceptionSeverity(exception) != UndefinedException) &&
+            (GetExceptionSeverity(exception) < ErrorException) &&
             (regard_warnings == WizardFalse))
           status=WizardTrue;
         CatchException(exception);
diff --git a/utilities/keyring.c b/utilities/keyring.c
index f1ace42..be23692 100644
--- a/utilities/keyring.c
+++ b/utilities/keyring.c
@@ -570,7 +570,8 @@ static int WizardMain(int argc,char **argv)
     if ((status == WizardFalse) ||
         (GetExceptionSeverity(exception) != UndefinedException))
       {
-        if ((GetExceptionSeverity(exception) < ErrorException) &&
+        if ((GetExceptionSeverity(exception) != UndefinedException) &&
+            (GetExceptionSeverity(exception) < ErrorException) &&
             (regard_warnings == WizardFalse))
           status=WizardTrue;
         CatchException(exception);
-- 
2.43.0


From 57e6cfb70cc6ab6e7f101a458c9398c349812a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:45 +0000
Subject: [PATCH 40/74] fix: notice a digest list that cannot be read

The list was closed inside the loop that parses it. A list whose first byte
could not be read was therefore taken for an empty one, and a list that began
with a blank was never finished.
---
 utilities/digest.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index e6f30fa..6fce693 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -539,9 +539,12 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
           c=ReadBlobByte(digest_blob);
       }
       options=DestroyString(options);
-      if (CloseBlob(digest_blob) == WizardFalse)
-        ThrowFileException(exception,FileError,argv[i]);
+      if ((isgraph(c) == WizardFalse) && (c != EOF))
+        c=ReadBlobByte(digest_blob);
     }
+    if (CloseBlob(digest_blob) == WizardFalse)
+      ThrowFileException(exception,FileError,argv[i]);
+    digest_blob=DestroyBlob(digest_blob);
     if (path != (char *) NULL)
       path=DestroyString(path);
     if (digest != (char *) NULL)
-- 
2.43.0


From 00d27a13ca8df6e0c36a9155ac2f5e25322f9bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:45 +0000
Subject: [PATCH 41/74] fix: report lack of memory while a document is parsed

A tag that could not be stored was dropped together with everything behind it,
and the partial document was returned as if it were complete.
---
 wizard/xml-tree.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 251536d..f439a39 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2110,7 +2110,7 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
                     ResourceError,"memory allocation failed `%s'",
                     strerror(errno));
                   utf8=DestroyString(utf8);
-                  return(&root->root);
+                  return(DestroyXMLTree(&root->root));
                 }
               attributes[l+2]=(char *) NULL;
               attributes[l+1]=(char *) NULL;
@@ -2186,6 +2186,14 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
             else
               {
                 ParseOpenTag(root,tag,attributes);
+                if (root->node == (XMLTreeInfo *) NULL)
+                  {
+                    (void) ThrowWizardException(exception,GetWizardModule(),
+                      ResourceError,"memory allocation failed `%s'",
+                      strerror(errno));
+                    utf8=DestroyString(utf8);
+                    return(DestroyXMLTree(&root->root));
+                  }
                 (void) ParseCloseTag(root,tag,exception);
               }
           }
@@ -2196,7 +2204,17 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
               {
                 *p='\0';
                 if ((ignore_depth == 0) && (IsSkipTag(tag) == WizardFalse))
-                  ParseOpenTag(root,tag,attributes);
+                  {
+                    ParseOpenTag(root,tag,attributes);
+                    if (root->node == (XMLTreeInfo *) NULL)
+                      {
+                        (void) ThrowWizardException(exception,GetWizardModule(),
+                          ResourceError,"memory allocation failed `%s'",
+                          strerror(errno));
+                        utf8=DestroyString(utf8);
+                        return(DestroyXMLTree(&root->root));
+                      }
+                  }
                 else
                   {
                     ignore_depth++;
-- 
2.43.0


From 15394ec5dd2b5274582f4a347bc5ef84e0f9c3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:05 +0000
Subject: [PATCH 42/74] fix: give back only what was granted when virtual
 memory is refused

AcquireVirtualMemory() gave back memory, address space and disk also when
the request for them had been refused.  The amount in use became negative
and the program aborted.
---
 wizard/memory.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/memory.c b/wizard/memory.c
index e82d8a2..71c6070 100644
--- a/wizard/memory.c
+++ b/wizard/memory.c
@@ -496,8 +496,8 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
           memory_info->type=AlignedVirtualMemory;
           return(memory_info);
         }
+      RelinquishWizardResource(MemoryResource,length);
     }
-  RelinquishWizardResource(MemoryResource,length);
   if (AcquireWizardResource(MapResource,length) != WizardFalse)
     {
       /*
@@ -545,10 +545,10 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
                 WizardTrue);
               *memory_info->filename = '\0';
             }
+          RelinquishWizardResource(DiskResource,length);
         }
-      RelinquishWizardResource(DiskResource,length);
+      RelinquishWizardResource(MapResource,length);
     }
-  RelinquishWizardResource(MapResource,length);
   if (memory_info->blob == NULL)
     {
       memory_info->blob=AcquireWizardMemory(length);
-- 
2.43.0


From 48d1b9a2d8763e5bd44a2ac6035728e9b83f911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:43:30 +0000
Subject: [PATCH 43/74] fix: remove the new temporary file when the file limit
 is reached

AcquireUniqueFileResource() tried to remove the directory it was given
and left the new file behind.
---
 wizard/resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 361db6c..ff6f9ec 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -341,7 +341,7 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
       if (close(file) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to close file `%s': %s",filename,strerror(errno));
-      if (remove_utf8(path) == -1)
+      if (remove_utf8(filename) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to remove file `%s': %s",filename,strerror(errno));
       return(-1);
-- 
2.43.0


From 8d23fb89862fb656e3cfd1b0494591df2c3cc512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:25 +0000
Subject: [PATCH 44/74] fix: give back a temporary file as asked

RelinquishUniqueFileResource() removed the file also when it was to be
kept, reported failure although the file was removed, never gave back the
file count, and lost track when two threads searched the list at once.
Files that remain are now removed explicitly at shutdown.
---
 wizard/resource.c | 81 +++++++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 30 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index ff6f9ec..623dbf1 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -180,7 +180,6 @@ WizardExport WizardBooleanType AcquireUniqueFilename(char *path,
 
 static void *DestroyTemporaryResources(void *temporary_resource)
 {
-  (void) remove_utf8((char *) temporary_resource);
   temporary_resource=DestroyString((char *) temporary_resource);
   return((void *) NULL);
 }
@@ -508,27 +507,50 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
 %      ResourceComponentTerminus(void)
 %
 */
-WizardExport void AsynchronousResourceComponentTerminus(void)
+
+static void RemoveTemporaryResources(void)
 {
+  char
+    filename[WizardPathExtent];
+
   const char
     *path;
 
-  if (temporary_resources == (SplayTreeInfo *) NULL)
-    return;
   /*
-    Remove any lingering temporary files.
+    Remove any lingering temporary files (a signal may interrupt us).
   */
-  ResetSplayTreeIterator(temporary_resources);
-  path=(const char *) GetNextKeyInSplayTree(temporary_resources);
-  while (path != (const char *) NULL)
+  *filename='\0';
+  do
   {
-    (void) remove_utf8(path);
-    path=(const char *) GetNextKeyInSplayTree(temporary_resources);
-  }
+    LockSemaphoreInfo(resource_semaphore);
+    path=(const char *) NULL;
+    if (temporary_resources != (SplayTreeInfo *) NULL)
+      {
+        ResetSplayTreeIterator(temporary_resources);
+        path=(const char *) GetNextKeyInSplayTree(temporary_resources);
+        while ((path != (const char *) NULL) &&
+               (LocaleCompare(path,filename) <= 0))
+          path=(const char *) GetNextKeyInSplayTree(temporary_resources);
+      }
+    if (path != (const char *) NULL)
+      (void) CopyWizardString(filename,path,WizardPathExtent);
+    UnlockSemaphoreInfo(resource_semaphore);
+    if (path != (const char *) NULL)
+      (void) remove_utf8(filename);
+  } while (path != (const char *) NULL);
+}
+
+WizardExport void AsynchronousResourceComponentTerminus(void)
+{
+  if (temporary_resources == (SplayTreeInfo *) NULL)
+    return;
+  if (resource_semaphore == (SemaphoreInfo *) NULL)
+    ActivateSemaphoreInfo(&resource_semaphore);
+  RemoveTemporaryResources();
   if (random_info != (RandomInfo *) NULL)
     random_info=DestroyRandomInfo(random_info);
 }
-
+
 /*
 %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
 %                                                                             %
@@ -843,27 +865,25 @@ WizardExport void RelinquishWizardResource(const ResourceType type,
 WizardExport WizardBooleanType RelinquishUniqueFileResource(const char *path,
   const WizardBooleanType trash)
 {
+  WizardBooleanType
+    registered,
+    status;
+
   WizardAssert(ResourceDomain,path != (const char *) NULL);
   (void) LogWizardEvent(ResourceEvent,GetWizardModule(),"%s",path);
+  status=WizardTrue;
+  if (trash != WizardFalse)
+    status=remove_utf8(path) == 0 ? WizardTrue : WizardFalse;
+  if (resource_semaphore == (SemaphoreInfo *) NULL)
+    ActivateSemaphoreInfo(&resource_semaphore);
+  LockSemaphoreInfo(resource_semaphore);
+  registered=WizardFalse;
   if (temporary_resources != (SplayTreeInfo *) NULL)
-    {
-       char
-        *p;
-
-      ResetSplayTreeIterator(temporary_resources);
-      p=(char *) GetNextKeyInSplayTree(temporary_resources);
-      while (p != (char *) NULL)
-      {
-        if (LocaleCompare(p,path) == 0)
-          break;
-        p=(char *) GetNextKeyInSplayTree(temporary_resources);
-      }
-      if (p != (char *) NULL)
-        (void) DeleteNodeFromSplayTree(temporary_resources,p);
-    }
-  if (trash == WizardFalse)
-    return(WizardTrue);
-  return(remove_utf8(path) == 0 ? WizardTrue : WizardFalse);
+    registered=DeleteNodeFromSplayTree(temporary_resources,path);
+  UnlockSemaphoreInfo(resource_semaphore);
+  if (registered != WizardFalse)
+    RelinquishWizardResource(FileResource,1);
+  return(status);
 }
 
 /*
@@ -984,6 +1004,7 @@ WizardExport void ResourceComponentTerminus(void)
 {
   if (resource_semaphore == (SemaphoreInfo *) NULL)
     ActivateSemaphoreInfo(&resource_semaphore);
+  RemoveTemporaryResources();
   LockSemaphoreInfo(resource_semaphore);
   if (temporary_resources != (SplayTreeInfo *) NULL)
     temporary_resources=DestroySplayTree(temporary_resources);
-- 
2.43.0


From 01e1226118828bc36b7bf9c4654bb14db7315fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:25 +0000
Subject: [PATCH 45/74] fix: do not lock up when a signal ends the program

The signal handler destroyed the random source of temporary file names.
It waited forever if the signal came while that source was in use.
---
 wizard/resource.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 623dbf1..88ad110 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -281,10 +281,21 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
   (void) LogWizardEvent(ResourceEvent,GetWizardModule(),"%s",path);
   if (random_info == (RandomInfo *) NULL)
     {
+      RandomInfo
+        *source;
+
+      source=AcquireRandomInfo(SHA2256Hash);
+      if (resource_semaphore == (SemaphoreInfo *) NULL)
+        ActivateSemaphoreInfo(&resource_semaphore);
       LockSemaphoreInfo(resource_semaphore);
       if (random_info == (RandomInfo *) NULL)
-        random_info=AcquireRandomInfo(SHA2256Hash);
+        {
+          random_info=source;
+          source=(RandomInfo *) NULL;
+        }
       UnlockSemaphoreInfo(resource_semaphore);
+      if (source != (RandomInfo *) NULL)
+        source=DestroyRandomInfo(source);
     }
   file=(-1);
   for (i=0; i < (ssize_t) TMP_MAX; i++)
@@ -547,8 +558,6 @@ WizardExport void AsynchronousResourceComponentTerminus(void)
   if (resource_semaphore == (SemaphoreInfo *) NULL)
     ActivateSemaphoreInfo(&resource_semaphore);
   RemoveTemporaryResources();
-  if (random_info != (RandomInfo *) NULL)
-    random_info=DestroyRandomInfo(random_info);
 }
 
 /*
-- 
2.43.0


From 36044ba8bcbe6468a2b88e9e80ad5a2002487e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:25 +0000
Subject: [PATCH 46/74] fix: do not hand out a temporary file that could not be
 registered

Such a file was never removed at shutdown.
---
 wizard/resource.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 88ad110..4a19fbe 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -256,6 +256,9 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
 # define TMP_MAX  238328
 #endif
 
+  char
+    *resource;
+
   int
     c,
     file;
@@ -270,12 +273,18 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
     portable_filename[] =
       "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-";
 
+  SplayTreeInfo
+    *resources;
+
   StringInfo
     *key;
 
   unsigned char
     *datum;
 
+  WizardBooleanType
+    status;
+
   WizardAssert(ResourceDomain,path != (const char *) NULL);
   WizardAssert(ResourceDomain,filename != (char *) NULL);
   (void) LogWizardEvent(ResourceEvent,GetWizardModule(),"%s",path);
@@ -356,15 +365,31 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
           "unable to remove file `%s': %s",filename,strerror(errno));
       return(-1);
     }
+  resources=(SplayTreeInfo *) NULL;
+  if (temporary_resources == (SplayTreeInfo *) NULL)
+    resources=NewSplayTree(CompareSplayTreeString,DestroyTemporaryResources,
+      (void *(*)(void *)) NULL);
+  resource=ConstantString(filename);
   if (resource_semaphore == (SemaphoreInfo *) NULL)
     ActivateSemaphoreInfo(&resource_semaphore);
   LockSemaphoreInfo(resource_semaphore);
   if (temporary_resources == (SplayTreeInfo *) NULL)
-    temporary_resources=NewSplayTree(CompareSplayTreeString,
-      DestroyTemporaryResources,(void *(*)(void *)) NULL);
+    {
+      temporary_resources=resources;
+      resources=(SplayTreeInfo *) NULL;
+    }
+  status=AddValueToSplayTree(temporary_resources,resource,(const void *) NULL);
   UnlockSemaphoreInfo(resource_semaphore);
-  (void) AddValueToSplayTree(temporary_resources,ConstantString(filename),
-    (const void *) NULL);
+  if (resources != (SplayTreeInfo *) NULL)
+    resources=DestroySplayTree(resources);
+  if (status == WizardFalse)
+    {
+      resource=DestroyString(resource);
+      RelinquishWizardResource(FileResource,1);
+      (void) close(file);
+      (void) remove_utf8(filename);
+      return(-1);
+    }
   return(file);
 }
 
-- 
2.43.0


From 386d2664fc4472f31f0484b161865e5d1a171297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:25 +0000
Subject: [PATCH 47/74] fix: refuse a resource request that overflows the
 amount in use

A request of 2^63 units or more made the sum negative, so it was granted
whatever the limit.
---
 wizard/resource.c | 51 +++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 4a19fbe..311fa17 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -420,6 +420,21 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
 %    o size: The number of bytes needed from for this resource.
 %
 */
+
+static inline WizardBooleanType IsResourceAvailable(
+  const WizardOffsetType resource,const WizardSizeType size,
+  const WizardSizeType limit)
+{
+  WizardSizeType
+    total;
+
+  total=(WizardSizeType) resource+size;
+  if ((total < size) || ((WizardOffsetType) total < 0))
+    return(WizardFalse);
+  return((limit == WizardResourceInfinity) || (total < limit) ? WizardTrue :
+    WizardFalse);
+}
+
 WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
   const WizardSizeType size)
 {
@@ -455,13 +470,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MemoryResource:
     {
-      resource_info.memory+=size;
       limit=resource_info.memory_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.memory < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.memory-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.memory,size,limit);
+      if (status != WizardFalse)
+        resource_info.memory+=(WizardOffsetType) size;
       (void) FormatWizardSize((WizardSizeType) resource_info.memory,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.memory_limit,WizardTrue,
@@ -470,13 +482,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MapResource:
     {
-      resource_info.map+=size;
       limit=resource_info.map_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.map < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.map-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.map,size,limit);
+      if (status != WizardFalse)
+        resource_info.map+=(WizardOffsetType) size;
       (void) FormatWizardSize((WizardSizeType) resource_info.map,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.map_limit,WizardTrue,
@@ -485,13 +494,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case DiskResource:
     {
-      resource_info.disk+=size;
       limit=resource_info.disk_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.disk < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.disk-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.disk,size,limit);
+      if (status != WizardFalse)
+        resource_info.disk+=(WizardOffsetType) size;
       (void) FormatWizardSize((WizardSizeType) resource_info.disk,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.disk_limit,WizardTrue,
@@ -500,13 +506,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case FileResource:
     {
-      resource_info.file+=size;
       limit=resource_info.file_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.file < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.file-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.file,size,limit);
+      if (status != WizardFalse)
+        resource_info.file+=(WizardOffsetType) size;
       (void) FormatWizardSize((WizardSizeType) resource_info.file,WizardFalse,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize((WizardSizeType) resource_info.file_limit,
-- 
2.43.0


From d0a662c9777556906e03915da50bfd1f137f1c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:49 +0000
Subject: [PATCH 48/74] fix: deliver each exception by its own severity

Whether an entry went to the fatal error handler was decided by the
severity of the latest entry of the record.  A fatal error followed by a
warning was never delivered.  A warning followed by a fatal error was
delivered twice, the second time as a fatal error.
---
 wizard/exception.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index 892d10a..bac2ec0 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -242,7 +242,7 @@ WizardExport void CatchException(ExceptionInfo *exception)
       WizardWarning(p->severity,p->reason,p->description);
     if ((p->severity >= ErrorException) && (p->severity < FatalErrorException))
       WizardError(p->severity,p->reason,p->description);
-    if (exception->severity >= FatalErrorException)
+    if (p->severity >= FatalErrorException)
       WizardFatalError(p->severity,p->reason,p->description);
     p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
       exception->exceptions);
-- 
2.43.0


From 5182881df282bf35fc467055f472fb0667db0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:49 +0000
Subject: [PATCH 49/74] fix: do not lose exceptions reported while others are
 delivered

CatchException() gave up the lock between delivering the entries and
clearing the record.  An exception another thread reported in between
was cleared without ever being delivered.
---
 wizard/exception.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index bac2ec0..fbbab6a 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -175,16 +175,11 @@ static void *DestroyExceptionElement(void *exception)
   return((void *) NULL);
 }
 
-WizardExport void ClearWizardException(ExceptionInfo *exception)
+static void ClearExceptionElements(ExceptionInfo *exception)
 {
    ExceptionInfo
     *p;
 
-  assert(exception != (ExceptionInfo *) NULL);
-  assert(exception->signature == WizardSignature);
-  if (exception->exceptions == (void *) NULL)
-    return;
-  LockSemaphoreInfo(exception->semaphore);
   p=(ExceptionInfo *) RemoveLastElementFromLinkedList((LinkedListInfo *)
     exception->exceptions);
   while (p != (ExceptionInfo *) NULL)
@@ -196,6 +191,16 @@ WizardExport void ClearWizardException(ExceptionInfo *exception)
   exception->severity=UndefinedException;
   exception->reason=(char *) NULL;
   exception->description=(char *) NULL;
+}
+
+WizardExport void ClearWizardException(ExceptionInfo *exception)
+{
+  assert(exception != (ExceptionInfo *) NULL);
+  assert(exception->signature == WizardSignature);
+  if (exception->exceptions == (void *) NULL)
+    return;
+  LockSemaphoreInfo(exception->semaphore);
+  ClearExceptionElements(exception);
   UnlockSemaphoreInfo(exception->semaphore);
   errno=0;
 }
@@ -247,8 +252,9 @@ WizardExport void CatchException(ExceptionInfo *exception)
     p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
       exception->exceptions);
   }
+  ClearExceptionElements(exception);
   UnlockSemaphoreInfo(exception->semaphore);
-  ClearWizardException(exception);
+  errno=0;
 }
 
 /*
-- 
2.43.0


From 3ab2112e334d57c425e26adcf6d5f5102ab3f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:49 +0000
Subject: [PATCH 50/74] fix: inheriting exceptions must not deadlock

InheritException() held the lock of the source while it took the lock of
the destination.  Two threads that inherited in opposite directions
waited for each other forever, and so did a record that inherits from
itself.
---
 wizard/exception.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index fbbab6a..24e8a47 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -665,6 +665,9 @@ WizardExport ExceptionType GetExceptionSeverity(const ExceptionInfo *exception)
 WizardExport void InheritException(ExceptionInfo *exception,
   const ExceptionInfo *relative)
 {
+   ExceptionInfo
+    *clone;
+
    const ExceptionInfo
     *p;
 
@@ -672,19 +675,33 @@ WizardExport void InheritException(ExceptionInfo *exception,
   assert(exception->signature == WizardSignature);
   assert(relative != (ExceptionInfo *) NULL);
   assert(relative->signature == WizardSignature);
-  if (relative->exceptions == (void *) NULL)
+  if ((exception == relative) || (relative->exceptions == (void *) NULL))
     return;
+  /*
+    Never hold both locks, another thread may inherit the other way around.
+  */
+  clone=AcquireExceptionInfo();
   LockSemaphoreInfo(relative->semaphore);
   ResetLinkedListIterator((LinkedListInfo *) relative->exceptions);
   p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
     relative->exceptions);
   while (p != (const ExceptionInfo *) NULL)
   {
-    (void) ThrowException(exception,p->severity,p->reason,p->description);
+    (void) ThrowException(clone,p->severity,p->reason,p->description);
     p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
       relative->exceptions);
   }
   UnlockSemaphoreInfo(relative->semaphore);
+  ResetLinkedListIterator((LinkedListInfo *) clone->exceptions);
+  p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
+    clone->exceptions);
+  while (p != (const ExceptionInfo *) NULL)
+  {
+    (void) ThrowException(exception,p->severity,p->reason,p->description);
+    p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
+      clone->exceptions);
+  }
+  clone=DestroyExceptionInfo(clone);
 }
 
 /*
-- 
2.43.0


From 476700f1bb38d00d1fc4b26e26647747d9748437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:49 +0000
Subject: [PATCH 51/74] fix: do not silently drop an exception when memory is
 short

ThrowException() ignored that an entry could not be added to the record.
The entry leaked and was never delivered.  It is now handled like the
other failed memory requests of the same function.
---
 wizard/exception.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index 24e8a47..97cf875 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -973,7 +973,12 @@ WizardExport WizardBooleanType ThrowException(ExceptionInfo *exception,
   if (description != (const char *) NULL)
     p->description=ConstantString(description);
   p->signature=WizardSignature;
-  (void) AppendValueToLinkedList((LinkedListInfo *) exception->exceptions,p);
+  if (AppendValueToLinkedList((LinkedListInfo *) exception->exceptions,p) == WizardFalse)
+    {
+      p=(ExceptionInfo *) DestroyExceptionElement(p);
+      UnlockSemaphoreInfo(exception->semaphore);
+      ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
+    }
   exception->severity=p->severity;
   exception->reason=p->reason;
   exception->description=p->description;
-- 
2.43.0


From 903f1016bd0de12ed40bbf181defed3ba0bcea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:24 +0000
Subject: [PATCH 52/74] fix: logging with an unlimited log file must not crash

The size limit in bytes overflowed for `limit="unlimited"'.  The first
event then tried to close a log file that had not been opened yet.
---
 wizard/log.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wizard/log.c b/wizard/log.c
index f4b50ff..8135205 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -1336,7 +1336,9 @@ WizardBooleanType LogWizardEventList(const LogEventType type,const char *module,
       file_info.st_size=0;
       if (log_info->file != (FILE *) NULL)
         (void) fstat(fileno(log_info->file),&file_info);
-      if (file_info.st_size > (WizardOffsetType) (1024*1024*log_info->limit))
+      if ((log_info->file != (FILE *) NULL) &&
+          (log_info->limit < ((~0UL)/(1024*1024))) &&
+          ((size_t) file_info.st_size > (1024*1024*log_info->limit)))
         {
           (void) fprintf(log_info->file,"</log>\n");
           (void) fclose(log_info->file);
-- 
2.43.0


From 71b107f3cbd1075c4abda1130e4d0a813d391915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:24 +0000
Subject: [PATCH 53/74] fix: closing the log or changing its format must not
 disturb other threads

CloseWizardLog() and SetLogFormat() took another lock than the one events
are written under.  A thread that logged at the same time used a closed
stream or a format that had been freed.
---
 wizard/log.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wizard/log.c b/wizard/log.c
index 8135205..021a3e7 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -348,14 +348,16 @@ WizardExport void CloseWizardLog(void)
   exception=AcquireExceptionInfo();
   log_info=(LogInfo *) GetLogInfo("*",exception);
   exception=DestroyExceptionInfo(exception);
-  LockSemaphoreInfo(log_semaphore);
+  if (log_info->event_semaphore == (SemaphoreInfo *) NULL)
+    ActivateSemaphoreInfo(&log_info->event_semaphore);
+  LockSemaphoreInfo(log_info->event_semaphore);
   if (log_info->file != (FILE *) NULL)
     {
       (void) fprintf(log_info->file,"</log>\n");
       (void) fclose(log_info->file);
       log_info->file=(FILE *) NULL;
     }
-  UnlockSemaphoreInfo(log_semaphore);
+  UnlockSemaphoreInfo(log_info->event_semaphore);
 }
 
 /*
@@ -1787,11 +1789,13 @@ WizardExport void SetLogFormat(const char *format)
   exception=AcquireExceptionInfo();
   log_info=(LogInfo *) GetLogInfo("*",exception);
   exception=DestroyExceptionInfo(exception);
-  LockSemaphoreInfo(log_semaphore);
+  if (log_info->event_semaphore == (SemaphoreInfo *) NULL)
+    ActivateSemaphoreInfo(&log_info->event_semaphore);
+  LockSemaphoreInfo(log_info->event_semaphore);
   if (log_info->format != (char *) NULL)
     log_info->format=DestroyString(log_info->format);
   log_info->format=ConstantString(format);
-  UnlockSemaphoreInfo(log_semaphore);
+  UnlockSemaphoreInfo(log_info->event_semaphore);
 }
 
 /*
-- 
2.43.0


From e19d4cc7e98b73ded7e611f827471a7271a8e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:24 +0000
Subject: [PATCH 54/74] fix: log an exception as what it is

Whether an exception was logged as an exception or as a warning depended
on the severity of the exception reported before.  With only exceptions
logged, the first error of a record was missing from the log.
---
 wizard/exception.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index 97cf875..0465a79 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -1046,7 +1046,7 @@ WizardExport WizardBooleanType ThrowWizardExceptionList(
 #endif
   if (n < 0)
     reason[WizardPathExtent-1]='\0';
-  status=LogWizardEvent(exception->severity >= ErrorException ?
+  status=LogWizardEvent(severity >= ErrorException ?
     ExceptionEvent : WarningEvent,module,function,line,"%s",reason);
   (void) FormatLocaleString(message,WizardPathExtent,"%s @ %s/%s/%.20g",reason,
     module,function,(double) line);
-- 
2.43.0


From 1c15883f0bf13bbfb956b58cac73d701e0c89965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:26 +0000
Subject: [PATCH 55/74] fix: resetting a stopwatch must set it to zero

ResetTimer() kept the accumulated time.  Continuing a stopwatch after the
reset even added the time since the system was started.
---
 wizard/timer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wizard/timer.c b/wizard/timer.c
index adbd1f9..10fcce8 100644
--- a/wizard/timer.c
+++ b/wizard/timer.c
@@ -347,8 +347,10 @@ WizardExport void ResetTimer(TimerInfo *timer_info)
   assert(timer_info != (TimerInfo *) NULL);
   assert(timer_info->signature == WizardSignature);
   StopTimer(timer_info);
-  timer_info->elapsed.stop=0.0;
-  timer_info->user.stop=0.0;
+  timer_info->elapsed.start=timer_info->elapsed.stop;
+  timer_info->elapsed.total=0.0;
+  timer_info->user.start=timer_info->user.stop;
+  timer_info->user.total=0.0;
 }
 
 /*
-- 
2.43.0


From e9c96c705a9554ab855719b1307efd596948c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:26 +0000
Subject: [PATCH 56/74] fix: starting a running stopwatch anew must reset it

StartTimer() with reset cleared the accumulated time but kept the old
starting time when the stopwatch was running, so the time before the
reset was counted again.
---
 wizard/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/timer.c b/wizard/timer.c
index 10fcce8..18fb837 100644
--- a/wizard/timer.c
+++ b/wizard/timer.c
@@ -392,7 +392,7 @@ WizardExport void StartTimer(TimerInfo *timer_info,
       timer_info->user.total=0.0;
       timer_info->elapsed.total=0.0;
     }
-  if (timer_info->state != RunningTimerState)
+  if ((reset != WizardFalse) || (timer_info->state != RunningTimerState))
     {
       timer_info->elapsed.start=ElapsedTime();
       timer_info->user.start=UserTime();
-- 
2.43.0


From d9b64fc72ca8a26819941fe018413508f9309122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:26 +0000
Subject: [PATCH 57/74] fix: delays of more than 71 minutes were cut short

The delay in microseconds did not fit the 32-bit argument of usleep().
---
 wizard/utility.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/utility.c b/wizard/utility.c
index 0014b9e..4537d2d 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -1053,7 +1053,8 @@ WizardExport void WizardDelay(const WizardSizeType milliseconds)
     (void) nanosleep(&timer,(struct timespec *) NULL);
   }
 #elif defined(WIZARDSTOOLKIT_HAVE_USLEEP)
-  usleep(1000*milliseconds);
+  (void) sleep((unsigned int) (milliseconds/1000));
+  (void) usleep((useconds_t) (1000*(milliseconds % 1000)));
 #elif defined(WIZARDSTOOLKIT_HAVE_SELECT)
   {
     struct timeval
-- 
2.43.0


From 32bc9739bd4cbeaeffdc19b2332d623795f8c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:55 +0000
Subject: [PATCH 58/74] fix: read files that a configuration file includes

Included files are read with an unlimited extent.  The extent was compared
as a signed number, where it is -1, so no included file was ever read.
---
 wizard/xml-tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index f439a39..061c982 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -711,7 +711,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       xml[length]='\0';
       return(xml);
     }
-  length=(size_t) WizardMin(offset,(WizardOffsetType) extent);
+  length=(size_t) WizardMin((size_t) offset,extent);
   xml=(char *) NULL;
   if (~length >= (WizardPathExtent-1))
     xml=(char *) AcquireQuantumMemory(length+WizardPathExtent,sizeof(*xml));
-- 
2.43.0


From 545dfa08e75021b838d06e16c1688f89bf43e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:55 +0000
Subject: [PATCH 59/74] fix: list every locale message

GetLocaleList() carried on where the shared iterator happened to stand.  It
always left out the first message, and any number of them when another
thread listed messages at the same time.
---
 wizard/locale.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/locale.c b/wizard/locale.c
index c0c8322..17f54e8 100644
--- a/wizard/locale.c
+++ b/wizard/locale.c
@@ -698,6 +698,7 @@ WizardExport char **GetLocaleList(const char *pattern,
   if (messages == (char **) NULL)
     return((char **) NULL);
   LockSemaphoreInfo(locale_semaphore);
+  ResetSplayTreeIterator(locale_cache);
   p=(const LocaleInfo *) GetNextValueInSplayTree(locale_cache);
   for (i=0; p != (const LocaleInfo *) NULL; )
   {
-- 
2.43.0


From f178bab1a299cb76e1b44b4bd6609f442b599246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:55 +0000
Subject: [PATCH 60/74] fix: keep the media types usable after the first lookup

At the end of a successful search GetMimeInfo() put a NULL element at the
head of the media types, and from then on no type was found.  The intended
reordering is dropped because the order decides between types of equal
priority.
---
 wizard/mime.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 8aa9e57..3cbb7fe 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -380,9 +380,6 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
     }
     p=(const MimeInfo *) GetNextValueInLinkedList(mime_cache);
   }
-  if (mime_info != (const MimeInfo *) NULL)
-    (void) InsertValueInLinkedList(mime_cache,0,
-      RemoveElementByValueFromLinkedList(mime_cache,p));
   UnlockSemaphoreInfo(mime_semaphore);
   return(mime_info);
 }
-- 
2.43.0


From d9e6b9dbb8ada796dff9b0601f44f27d7e1e534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:55 +0000
Subject: [PATCH 61/74] fix: sort the list of media types by name

The comparison took the address of an element for its text.
---
 wizard/mime.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 3cbb7fe..5cbdc0f 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -518,12 +518,12 @@ extern "C" {
 static int MimeCompare(const void *x,const void *y)
 {
    char
-    *p,
-    *q;
+    **p,
+    **q;
 
-  p=(char *) x;
-  q=(char *) y;
-  return(strcasecmp(p,q));
+  p=(char **) x;
+  q=(char **) y;
+  return(strcasecmp(*p,*q));
 }
 
 #if defined(__cplusplus) || defined(c_plusplus)
-- 
2.43.0


From bc4913141ba8ab9ed1cd5572f3620aadeae383c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:55 +0000
Subject: [PATCH 62/74] fix: release the configuration options at shutdown

They are set up at start, but shutdown left them in memory.  A program that
started the library again kept seeing the old options.
---
 wizard/wizard.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/wizard.c b/wizard/wizard.c
index 2bb72e8..9f8190c 100644
--- a/wizard/wizard.c
+++ b/wizard/wizard.c
@@ -343,6 +343,7 @@ WizardExport void WizardsToolkitTerminus(void)
   MimeComponentTerminus();
   ResourceComponentTerminus();
   RandomComponentTerminus();
+  ConfigureComponentTerminus();
   LogComponentTerminus();
   instantiate_wizardstoolkit=WizardFalse;
   UnlockWizardMutex();
-- 
2.43.0


From c2f67cbda26f79692b3850b609b21e5699ef5354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:19:37 +0000
Subject: [PATCH 63/74] fix: release the locale messages at shutdown

Shutdown left them in memory.  A program that started the library again
kept seeing the old messages, or none if they could not be read at first.
---
 wizard/wizard.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/wizard.c b/wizard/wizard.c
index 9f8190c..446922e 100644
--- a/wizard/wizard.c
+++ b/wizard/wizard.c
@@ -42,6 +42,7 @@
 #include "wizard/client.h"
 #include "wizard/configure.h"
 #include "wizard/hash.h"
+#include "wizard/locale_.h"
 #include "wizard/log.h"
 #include "wizard/magick.h"
 #include "wizard/memory_.h"
@@ -344,6 +345,7 @@ WizardExport void WizardsToolkitTerminus(void)
   ResourceComponentTerminus();
   RandomComponentTerminus();
   ConfigureComponentTerminus();
+  LocaleComponentTerminus();
   LogComponentTerminus();
   instantiate_wizardstoolkit=WizardFalse;
   UnlockWizardMutex();
-- 
2.43.0


From a9043668553b5034c96f14e6d77180746389ee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:26 +0000
Subject: [PATCH 64/74] fix: allocate room for every configuration option when
 listing them

A lookup in another thread takes an option off the list for a moment to
move it to the front.  The list returned to the caller was sized at such a
moment without holding the lock, and filling it overran its memory.
---
 wizard/configure.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wizard/configure.c b/wizard/configure.c
index 7c31e2f..1c6f3fb 100644
--- a/wizard/configure.c
+++ b/wizard/configure.c
@@ -439,14 +439,17 @@ WizardExport const ConfigureInfo **GetConfigureInfoList(const char *pattern,
   p=GetConfigureInfo("*",exception);
   if (p == (const ConfigureInfo *) NULL)
     return((const ConfigureInfo **) NULL);
+  LockSemaphoreInfo(configure_semaphore);
   options=(const ConfigureInfo **) AcquireQuantumMemory((size_t)
     GetNumberOfElementsInLinkedList(configure_cache)+1UL,sizeof(*options));
   if (options == (const ConfigureInfo **) NULL)
-    return((const ConfigureInfo **) NULL);
+    {
+      UnlockSemaphoreInfo(configure_semaphore);
+      return((const ConfigureInfo **) NULL);
+    }
   /*
     Generate configure list.
   */
-  LockSemaphoreInfo(configure_semaphore);
   ResetLinkedListIterator(configure_cache);
   p=(const ConfigureInfo *) GetNextValueInLinkedList(configure_cache);
   for (i=0; p != (const ConfigureInfo *) NULL; )
@@ -534,12 +537,13 @@ WizardExport char **GetConfigureList(const char *pattern,
   if (p == (const ConfigureInfo *) NULL)
     return((char **) NULL);
   LockSemaphoreInfo(configure_semaphore);
-  UnlockSemaphoreInfo(configure_semaphore);
   options=(char **) AcquireQuantumMemory((size_t)
     GetNumberOfElementsInLinkedList(configure_cache)+1UL,sizeof(*options));
   if (options == (char **) NULL)
-    return((char **) NULL);
-  LockSemaphoreInfo(configure_semaphore);
+    {
+      UnlockSemaphoreInfo(configure_semaphore);
+      return((char **) NULL);
+    }
   ResetLinkedListIterator(configure_cache);
   p=(const ConfigureInfo *) GetNextValueInLinkedList(configure_cache);
   for (i=0; p != (const ConfigureInfo *) NULL; )
-- 
2.43.0


From dfad7c0e201f2cac0abae695052c67bf03291ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:34 +0000
Subject: [PATCH 65/74] fix: do not hang when there is no memory for a lock

The fatal error for a lock that cannot be allocated needs other locks.  It
was thrown while the mutex that guards the creation of locks was held, so
reporting it waited for that mutex forever.  Allocate the lock first.
---
 wizard/semaphore.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wizard/semaphore.c b/wizard/semaphore.c
index 785f755..5bcff55 100644
--- a/wizard/semaphore.c
+++ b/wizard/semaphore.c
@@ -249,11 +249,20 @@ WizardExport void ActivateSemaphoreInfo(SemaphoreInfo **semaphore_info)
   assert(semaphore_info != (SemaphoreInfo **) NULL);
   if (*semaphore_info == (SemaphoreInfo *) NULL)
     {
+      SemaphoreInfo
+        *semaphore;
+
+      semaphore=AcquireSemaphoreInfo();
       InitializeWizardMutex();
       LockWizardMutex();
       if (*semaphore_info == (SemaphoreInfo *) NULL)
-        *semaphore_info=AcquireSemaphoreInfo();
+        {
+          *semaphore_info=semaphore;
+          semaphore=(SemaphoreInfo *) NULL;
+        }
       UnlockWizardMutex();
+      if (semaphore != (SemaphoreInfo *) NULL)
+        RelinquishSemaphoreInfo(&semaphore);
     }
 }
 
-- 
2.43.0


From b08407c2e5001c87b4c3ac9693f11dbeb9420a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:34 +0000
Subject: [PATCH 66/74] fix: reading a configuration file that cannot be
 positioned

A read error was taken for the end of the file, and half of the file was
used.  The buffer was extended by too little after each read, and a file of
more than one block overran it.
---
 wizard/xml-tree.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 061c982..62787f6 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -685,16 +685,22 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
         count=read(file,xml+i,quantum);
         if (count <= 0)
           {
+            if ((count < 0) && (errno != EINTR))
+              {
+                xml=(char *) RelinquishWizardMemory(xml);
+                count=0;
+                break;
+              }
             count=0;
             if (errno != EINTR)
               break;
           }
-        if (~((size_t) i) < (quantum+1))
+        if (~((size_t) (i+count)) < (quantum+1))
           {
             xml=(char *) RelinquishWizardMemory(xml);
             break;
           }
-        xml=(char *) ResizeQuantumMemory(xml,i+quantum+1,sizeof(*xml));
+        xml=(char *) ResizeQuantumMemory(xml,i+count+quantum+1,sizeof(*xml));
         if ((size_t) (i+count) >= extent)
           break;
       }
-- 
2.43.0


From 88ba116317e26e4703ad21cf14ebbe5443320cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:40 +0000
Subject: [PATCH 67/74] fix: flush a new keyring record before reporting it as
 stored

A close error after the last write was reported as a message only. The
import then returned success although the end of the record was lost.
Flush the file first, and undo the import if that fails.
---
 wizard/keyring.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index f95dc19..1d0704b 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -637,7 +637,8 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
       (WriteFile32Bits(file_info,GetStringInfoLength(keyring_info->nonce)) ==
         WizardFalse) ||
       (WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->nonce),
-        GetStringInfoLength(keyring_info->nonce)) == WizardFalse))
+        GetStringInfoLength(keyring_info->nonce)) == WizardFalse) ||
+      (fsync(GetFileDescriptor(file_info)) == -1))
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "unable to write keyring `%s': %s",GetFilePath(file_info),
-- 
2.43.0


From 8de95d6feb831cbf85f56a736292d8290079d3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:28 +0000
Subject: [PATCH 68/74] fix: refuse a cipher packet without its end

A file cut or damaged at the end of its cipher packet was taken for one
without content. Deciphering it reported success and wrote nothing.
---
 utilities/content.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index f6fd034..5d24a5d 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -596,8 +596,13 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
     while (isspace((int) ((unsigned char) c)) != 0)
       c=ReadBlobByte(cipher_blob);
   }
-  c=ReadBlobByte(cipher_blob);
-  c=ReadBlobByte(cipher_blob);
+  if ((c != '>') || (ReadBlobByte(cipher_blob) != '\f') ||
+      (ReadBlobByte(cipher_blob) != '\n'))
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),AuthenticateError,
+        "authentication error: `%s'",GetBlobFilename(cipher_blob));
+      return(WizardFalse);
+    }
   return(WizardTrue);
 }
 
-- 
2.43.0


From 902b2475dd65da54f4602db924e908bf0a3d0bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:33 +0000
Subject: [PATCH 69/74] fix: keep a tree walk off removed keys

---
 wizard/splay-tree.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/wizard/splay-tree.c b/wizard/splay-tree.c
index f21ef7d..a446afa 100644
--- a/wizard/splay-tree.c
+++ b/wizard/splay-tree.c
@@ -170,6 +170,8 @@ WizardExport WizardBooleanType AddValueToSplayTree(SplayTreeInfo *splay_tree,
           ((splay_tree->root->key < key) ? -1 : 0);
       if (compare == 0)
         {
+          if (splay_tree->next == splay_tree->root->key)
+            splay_tree->next=(void *) key;
           if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
               (splay_tree->root->value != (void *) NULL))
             splay_tree->root->value=splay_tree->relinquish_value(
@@ -481,6 +483,25 @@ WizardExport int CompareSplayTreeStringInfo(const void *target,
 %    o value: The value.
 %
 */
+static inline void AdvanceSplayTreeIterator(SplayTreeInfo *splay_tree)
+{
+  NodeInfo
+    *node;
+
+  /*
+    The root is about to go, an iteration that stands on it moves on.
+  */
+  if (splay_tree->next != splay_tree->root->key)
+    return;
+  splay_tree->next=(void *) NULL;
+  node=splay_tree->root->right;
+  if (node == (NodeInfo *) NULL)
+    return;
+  while (node->left != (NodeInfo *) NULL)
+    node=node->left;
+  splay_tree->next=node->key;
+}
+
 WizardExport WizardBooleanType DeleteNodeByValueFromSplayTree(
   SplayTreeInfo *splay_tree,const void *value)
 {
@@ -538,6 +559,7 @@ WizardExport WizardBooleanType DeleteNodeByValueFromSplayTree(
             UnlockSemaphoreInfo(splay_tree->semaphore);
             return(WizardFalse);
           }
+        AdvanceSplayTreeIterator(splay_tree);
         left=splay_tree->root->left;
         right=splay_tree->root->right;
         if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
@@ -628,6 +650,7 @@ WizardExport WizardBooleanType DeleteNodeFromSplayTree(
       UnlockSemaphoreInfo(splay_tree->semaphore);
       return(WizardFalse);
     }
+  AdvanceSplayTreeIterator(splay_tree);
   left=splay_tree->root->left;
   right=splay_tree->root->right;
   if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
@@ -1212,6 +1235,7 @@ WizardExport void *RemoveNodeByValueFromSplayTree(SplayTreeInfo *splay_tree,
             UnlockSemaphoreInfo(splay_tree->semaphore);
             return(key);
           }
+        AdvanceSplayTreeIterator(splay_tree);
         left=splay_tree->root->left;
         right=splay_tree->root->right;
         if ((splay_tree->relinquish_value != (void *(*)(void *)) NULL) &&
@@ -1302,6 +1326,7 @@ WizardExport void *RemoveNodeFromSplayTree(SplayTreeInfo *splay_tree,
       UnlockSemaphoreInfo(splay_tree->semaphore);
       return(value);
     }
+  AdvanceSplayTreeIterator(splay_tree);
   left=splay_tree->root->left;
   right=splay_tree->root->right;
   value=splay_tree->root->value;
-- 
2.43.0


From dbd62145eb10841286a4273c5cee080b9bfe83d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:52 +0000
Subject: [PATCH 70/74] fix: refuse a passphrase whose reading failed

The status of the newline written after the line replaced the status of
the read.  A passphrase cut by a signal or a terminal error was accepted.
---
 wizard/passphrase.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/passphrase.c b/wizard/passphrase.c
index fc0415e..52abeb9 100644
--- a/wizard/passphrase.c
+++ b/wizard/passphrase.c
@@ -233,7 +233,8 @@ static WizardBooleanType GetPhrase(const char *prompt,PassphraseMode flags,
   *p=(unsigned char) '\0';
   SetStringInfoLength(phrase,(size_t) (p-GetStringInfoDatum(phrase)));
   if ((attributes.c_lflag & ECHO) == 0)
-    count=write(output,"\n",1);
+    if (write(output,"\n",1) < 0)
+      count=(-1);
   /*
     Restore old terminal settings and signals.
   */
-- 
2.43.0


From efeb5724f4bc0e591b6b11279aa8f3147a369694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:52 +0000
Subject: [PATCH 71/74] fix: put back the handler of terminal output signals

The handler was replaced while a passphrase is read and never put back.
---
 wizard/passphrase.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/passphrase.c b/wizard/passphrase.c
index 52abeb9..673634a 100644
--- a/wizard/passphrase.c
+++ b/wizard/passphrase.c
@@ -248,6 +248,7 @@ static WizardBooleanType GetPhrase(const char *prompt,PassphraseMode flags,
   (void) sigaction(SIGTERM,&sigterm,(struct sigaction *) NULL);
   (void) sigaction(SIGTSTP,&sigtstp,(struct sigaction *) NULL);
   (void) sigaction(SIGTTIN,&sigttin,(struct sigaction *) NULL);
+  (void) sigaction(SIGTTOU,&sigttou,(struct sigaction *) NULL);
   if (input != STDIN_FILENO)
     input=close(input)-1;
   if (signal_number != 0)
-- 
2.43.0


From e1ba9cd22799efc96bc2909d840c1502c29b3418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:52 +0000
Subject: [PATCH 72/74] fix: free the phrases when a passphrase cannot be read

---
 wizard/passphrase.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wizard/passphrase.c b/wizard/passphrase.c
index 673634a..ef53148 100644
--- a/wizard/passphrase.c
+++ b/wizard/passphrase.c
@@ -318,6 +318,8 @@ WizardExport StringInfo *GetPassphrase(ExceptionInfo *exception)
       {
         (void) ThrowWizardException(exception,GetWizardModule(),
           AuthenticateError,"unable to get pass phrase `%s'",strerror(errno));
+        phrase=DestroyStringInfo(phrase);
+        rephrase=DestroyStringInfo(rephrase);
         return((StringInfo *) NULL);
       }
     status=GetPhrase("Enter same passphrase again: ",EchoOffMode,rephrase);
@@ -325,6 +327,8 @@ WizardExport StringInfo *GetPassphrase(ExceptionInfo *exception)
       {
         (void) ThrowWizardException(exception,GetWizardModule(),
           AuthenticateError,"unable to get pass phrase `%s'",strerror(errno));
+        phrase=DestroyStringInfo(phrase);
+        rephrase=DestroyStringInfo(rephrase);
         return((StringInfo *) NULL);
       }
     if (CompareStringInfo(phrase,rephrase) == 0)
-- 
2.43.0


From 68414ce28129c44c4b7d23cb28af20e7ccb29f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:52 +0000
Subject: [PATCH 73/74] fix: ask for memory only while the terminal is in its
 normal state

Running out of memory ends the process.  The phrase was resized while echo
was off and the terminal stayed that way.
---
 wizard/passphrase.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/passphrase.c b/wizard/passphrase.c
index ef53148..bb32503 100644
--- a/wizard/passphrase.c
+++ b/wizard/passphrase.c
@@ -159,6 +159,7 @@ static WizardBooleanType GetPhrase(const char *prompt,PassphraseMode flags,
   /*
     Read and write to _PATH_TTY if available, otherwise from stdin.
   */
+  SetStringInfoLength(phrase,WizardPathExtent);
   signal_number=0;
   input=STDIN_FILENO;
   output=STDERR_FILENO;
@@ -211,7 +212,6 @@ static WizardBooleanType GetPhrase(const char *prompt,PassphraseMode flags,
     }
   if (((flags & StdinMode) == 0) && (output != -1))
     count=write(output,prompt,strlen(prompt));
-  SetStringInfoLength(phrase,WizardPathExtent);
   p=GetStringInfoDatum(phrase);
   while (((count=read(input,&c,1)) == 1) && (c != '\n') && (c != '\r'))
   {
@@ -231,7 +231,6 @@ static WizardBooleanType GetPhrase(const char *prompt,PassphraseMode flags,
       }
   }
   *p=(unsigned char) '\0';
-  SetStringInfoLength(phrase,(size_t) (p-GetStringInfoDatum(phrase)));
   if ((attributes.c_lflag & ECHO) == 0)
     if (write(output,"\n",1) < 0)
       count=(-1);
@@ -251,6 +250,7 @@ static WizardBooleanType GetPhrase(const char *prompt,PassphraseMode flags,
   (void) sigaction(SIGTTOU,&sigttou,(struct sigaction *) NULL);
   if (input != STDIN_FILENO)
     input=close(input)-1;
+  SetStringInfoLength(phrase,(size_t) (p-GetStringInfoDatum(phrase)));
   if (signal_number != 0)
     {
       /*
-- 
2.43.0


From 86f57ca4d422b4a69f0c1fefa6c8072530039891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:45 +0000
Subject: [PATCH 74/74] fix: store a key with the version of the format it is
 written in

The version came from whatever record an earlier lookup had read. After a
lookup that failed, or that found an old key, the record could not be read
back and hid all later keys.
---
 wizard/keyring.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 1d0704b..188fcad 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -620,9 +620,9 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   if ((status == WizardFalse) ||
       (WriteFile32Bits(file_info,keyring_info->signature) == WizardFalse) ||
       (WriteFile32Bits(file_info,0U) == WizardFalse) ||
-      (WriteFile16Bits(file_info,keyring_info->protocol_major) ==
+      (WriteFile16Bits(file_info,KeyringProtocolMajorVersion) ==
         WizardFalse) ||
-      (WriteFile16Bits(file_info,keyring_info->protocol_minor) ==
+      (WriteFile16Bits(file_info,KeyringProtocolMinorVersion) ==
         WizardFalse) ||
       (WriteFile64Bits(file_info,(WizardSizeType) keyring_info->timestamp) ==
         WizardFalse) ||
-- 
2.43.0

