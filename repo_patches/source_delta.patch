From 20837fcd2a22e13171df711e0f4e1bd845243365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 01/54] fix: do not read past the end of a truncated changeset

ChangesetReader read varints, integers and doubles without checking that they
fit into the buffer, and accepted negative text/blob lengths.
---
 geodiff/src/changesetreader.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 27ca43c..7263efa 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -88,6 +88,15 @@ int ChangesetReader::readVarint()
 {
   u32 value;
   const unsigned char *ptr = ( const unsigned char * )mBuffer->c_buf() + mOffset;
+
+  // make sure the whole varint (1-9 bytes) is within the buffer
+  int available = mBuffer->size() - mOffset;
+  int continuationBytes = 0;
+  while ( continuationBytes < 8 && continuationBytes < available && ( ptr[continuationBytes] & 0x80 ) )
+    ++continuationBytes;
+  if ( continuationBytes >= available )
+    throwReaderError( "readVarint: at the end of buffer" );
+
   int nBytes = getVarint32( ptr, value );
   mOffset += nBytes;
   return value;
@@ -123,6 +132,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit int (big endian)
       int64_t v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: int/double: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -134,6 +145,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit double (big endian)
       double v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: int/double: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -143,7 +156,7 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
     else if ( type == Value::TypeText || type == Value::TypeBlob ) // 0x03 or 0x04
     {
       int len = readVarint();
-      if ( mOffset + len > mBuffer->size() )
+      if ( len < 0 || len > mBuffer->size() - mOffset )
         throwReaderError( "readRowValues: text/blob: at the end of buffer" );
       values[i].setString( type == Value::TypeText ? Value::TypeText : Value::TypeBlob, mBuffer->c_buf() + mOffset, len );
       mOffset += len;
-- 
2.43.0


From 1d1be1e9342654c0f28e94377e86dbed1789e1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 02/54] fix: report unknown record types in changesets

Bytes that do not start a table or an entry record were silently skipped, so a
corrupted changeset was read as a shorter (or empty) one without any error.
---
 geodiff/src/changesetreader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 7263efa..aa8694d 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -60,6 +60,10 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
       entry.table = &mCurrentTable;
       return true;  // we're done!
     }
+    else
+    {
+      throwReaderError( "nextEntry: unknown record type " + std::to_string( type ) );
+    }
   }
   return false;
 }
-- 
2.43.0


From a1b6f290b8b9e202ff9a478c2bbe18882fbb11cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 03/54] fix: report changeset entries without a table record

Such an entry was returned with a table without name and columns, which makes
drivers dereference schema of a non-existing table.
---
 geodiff/src/changesetreader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index aa8694d..e5cc071 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -50,6 +50,9 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
     }
     else if ( type == ChangesetEntry::OpInsert || type == ChangesetEntry::OpUpdate || type == ChangesetEntry::OpDelete )
     {
+      if ( mCurrentTable.columnCount() == 0 )
+        throwReaderError( "nextEntry: entry without a preceding table record" );
+
       int indirect = readByte();
       if ( type != ChangesetEntry::OpInsert )
         readRowValues( entry.oldValues );
-- 
2.43.0


From 8b19faf6e44663a63913b0759a9a26da3c15fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 04/54] fix: comparing two NULL values must not abort

---
 geodiff/src/changeset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 89ee970..533f69a 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -52,7 +52,7 @@ struct Value
     {
       if ( mType != other.mType )
         return false;
-      if ( mType == TypeUndefined || mType == TypeUndefined )
+      if ( mType == TypeUndefined || mType == TypeNull )
         return true;
       if ( mType == TypeInt )
         return getInt() == other.getInt();
-- 
2.43.0


From 73281d7e1c3f2ec7cd9cc4c518257bef1975bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 05/54] fix: assigning a value to itself must not destroy it

---
 geodiff/src/changeset.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 533f69a..6b16e91 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -38,6 +38,9 @@ struct Value
 
     Value &operator=( const Value &other )
     {
+      if ( this == &other )
+        return *this;
+
       reset();
       mType = other.mType;
       mVal = other.mVal;
-- 
2.43.0


From 57ed2be71e22f288e258ec9fbfa56453fb482945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 06/54] fix: GEODIFF_changesCount returns -1 for malformed
 changesets instead of throwing

---
 geodiff/src/geodiff.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index ff4da8d..1c707b7 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -269,9 +269,17 @@ int GEODIFF_changesCount( const char *changeset )
   }
 
   int changesCount = 0;
-  ChangesetEntry entry;
-  while ( reader.nextEntry( entry ) )
-    ++changesCount;
+  try
+  {
+    ChangesetEntry entry;
+    while ( reader.nextEntry( entry ) )
+      ++changesCount;
+  }
+  catch ( GeoDiffException exc )
+  {
+    Logger::instance().error( exc );
+    return -1;
+  }
 
   return changesCount;
 }
-- 
2.43.0


From 7f32d43ccf75dce89fd93e967e9d0ae94955bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 07/54] fix: GEODIFF_hasChanges agrees with the number of
 changes

---
 geodiff/src/geodiff.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 1c707b7..2c4f54a 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -250,7 +250,17 @@ int GEODIFF_hasChanges( const char *changeset )
     return -1;
   }
 
-  return !reader.isEmpty();
+  try
+  {
+    // a changeset may contain just table records - there are no changes in that case
+    ChangesetEntry entry;
+    return reader.nextEntry( entry );
+  }
+  catch ( GeoDiffException exc )
+  {
+    Logger::instance().error( exc );
+    return -1;
+  }
 }
 
 int GEODIFF_changesCount( const char *changeset )
-- 
2.43.0


From 267550e6c1bdf980415bdeccfbaebf42f103019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 08/54] fix: report NULL arguments and unreadable changesets in
 the C API

---
 geodiff/src/geodiff.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 2c4f54a..b88e36a 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -154,7 +154,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
                                     const char *conflictfile
                                   )
 {
-  if ( !conflictfile )
+  if ( !base || !modified || !changeset_their || !changeset || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
@@ -338,7 +338,7 @@ int GEODIFF_listChangesSummary( const char *changeset, const char *jsonfile )
 
 int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
 {
-  if ( !changeset )
+  if ( !changeset || !changeset_inv )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_invertChangeset" );
     return GEODIFF_ERROR;
@@ -416,7 +416,7 @@ int GEODIFF_rebaseEx( const char *driverName,
                       const char *base2their,
                       const char *conflictfile )
 {
-  if ( !base || !modified || !modified || !conflictfile )
+  if ( !driverName || !base || !modified || !base2their || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_rebase" );
     return GEODIFF_ERROR;
@@ -427,7 +427,13 @@ int GEODIFF_rebaseEx( const char *driverName,
     std::string root = tmpdir() + "geodiff_" + randomString( 6 );
 
     // situation 1: base2theirs is null, so we do not need rebase. modified is already fine
-    if ( !GEODIFF_hasChanges( base2their ) )
+    int theirsHasChanges = GEODIFF_hasChanges( base2their );
+    if ( theirsHasChanges < 0 )
+    {
+      Logger::instance().error( "Unable to read base2their changeset" );
+      return GEODIFF_ERROR;
+    }
+    if ( !theirsHasChanges )
     {
       return GEODIFF_SUCCESS;
     }
-- 
2.43.0


From c56a347903fd708b8686a7b92509a6218adcbb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 09/54] fix: rebase with an empty side must write the output
 and keep the inputs

---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bc459b..1bfb0a7 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -579,7 +579,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_THEIRS.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2theirs) --\n" );
-    filecopy( changeset_BASE_MODIFIED, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
@@ -592,7 +592,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_MODIFIED.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2modified) --\n" );
-    filecopy( changeset_BASE_THEIRS, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
-- 
2.43.0


From 88d0b85765d5760ba98585460928cb5d0aff29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 10/54] fix: do not report rebase conflicts for columns only
 one side has changed

---
 geodiff/src/geodiffrebase.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bfb0a7..1b9fe8f 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -468,11 +468,12 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     // if the value was patched in the previous commit, use that one as base
     Value patchedVal = patchedVals[i];
-    if ( patchedVal.type() != Value::TypeUndefined )
+    if ( patchedVal.type() != Value::TypeUndefined && entry.newValues[i].type() != Value::TypeUndefined )
     {
       outEntry.oldValues[i] = patchedVal;
-      // conflict for this value
-      _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
+      // conflict for this value - unless both sides have made the same change
+      if ( entry.newValues[i] != patchedVal )
+        _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
     }
     else
     {
-- 
2.43.0


From 3737324ec4c4a704876c948de7223563d183b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 11/54] fix: an insert with key -1 does not clash with dropped
 changes in rebase

---
 geodiff/src/geodiffrebase.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1b9fe8f..e1fddaf 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -307,7 +307,10 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     // make a set of all new pkeys
     std::set<int> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
-      usedNewPkeys.insert( oldNewPair.second );
+    {
+      if ( oldNewPair.second != RebaseMapping::INVALID_FID )
+        usedNewPkeys.insert( oldNewPair.second );
+    }
 
     std::set<int> pkeys = pair.second;
     for ( int pk : pkeys )
-- 
2.43.0


From dce03421a308fae4955d41dbac64a9075c8d7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 12/54] fix: rebase keeps primary key values that do not need
 to change

---
 geodiff/src/geodiffrebase.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index e1fddaf..28d7792 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -359,7 +359,11 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     if ( entry.table->primaryKeys[i] )
     {
-      outEntry.newValues[i].setInt( newPk );
+      // keep the original value (it may be of other type than integer) unless it needs to change
+      if ( newPk != pk )
+        outEntry.newValues[i].setInt( newPk );
+      else
+        outEntry.newValues[i] = entry.newValues[i];
     }
     else
     {
@@ -403,7 +407,7 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     if ( entry.table->primaryKeys[i] )
     {
-      outEntry.oldValues[i].setInt( newPk );
+      outEntry.oldValues[i] = entry.oldValues[i];
     }
     else
     {
-- 
2.43.0


From 332e71f44b9b2e8f03baaed5b4c38cbe574973f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 13/54] fix: rebase refuses changesets with a different number
 of columns in a table

---
 geodiff/src/geodiffrebase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 28d7792..23dba80 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -403,6 +403,9 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   else
     patchedVals = a->second;
 
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "rebase: the changesets have different columns in table " + entry.table->name );
+
   for ( size_t i = 0; i < numColumns; i++ )
   {
     if ( entry.table->primaryKeys[i] )
@@ -469,6 +472,9 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
   else
     patchedVals = a->second;
 
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "rebase: the changesets have different columns in table " + entry.table->name );
+
   ConflictFeature conflictFeature( pk, entry.table->name );
 
   for ( size_t i = 0; i < numColumns; i++ )
-- 
2.43.0


From c00001feb27cef0b928eb904b51e36e2c38db9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 14/54] fix: invert starts a new table when only the columns
 differ

---
 geodiff/src/changesetutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 2d9b5dd..f348051 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -29,7 +29,7 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
   while ( reader.nextEntry( entry ) )
   {
     assert( entry.table );
-    if ( entry.table->name != currentTableName )
+    if ( entry.table->name != currentTableName || entry.table->primaryKeys != currentPkeys )
     {
       writer.beginTable( *entry.table );
       currentTableName = entry.table->name;
-- 
2.43.0


From fb7c36a83fbc87f5e914758a810747f59442aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 15/54] fix: report failures to write changeset files

---
 geodiff/src/changesetwriter.cpp |  7 +++++++
 geodiff/src/changesetwriter.h   |  3 +++
 geodiff/src/geodiff.cpp         | 13 ++++++++++---
 geodiff/src/geodiffrebase.cpp   |  1 +
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/changesetwriter.cpp b/geodiff/src/changesetwriter.cpp
index 3b7b6fe..63adbd7 100644
--- a/geodiff/src/changesetwriter.cpp
+++ b/geodiff/src/changesetwriter.cpp
@@ -52,6 +52,13 @@ void ChangesetWriter::writeEntry( const ChangesetEntry &entry )
     writeRowValues( entry.newValues );
 }
 
+void ChangesetWriter::close()
+{
+  mFile.close();
+  if ( mFile.fail() )
+    throw GeoDiffException( "failed to write changeset file" );
+}
+
 void ChangesetWriter::writeByte( char c )
 {
   mFile.write( &c, 1 );
diff --git a/geodiff/src/changesetwriter.h b/geodiff/src/changesetwriter.h
index 81a40b8..84b9151 100644
--- a/geodiff/src/changesetwriter.h
+++ b/geodiff/src/changesetwriter.h
@@ -33,6 +33,9 @@ class ChangesetWriter
     //! writes table change entry
     void writeEntry( const ChangesetEntry &entry );
 
+    //! finishes writing of the file, throws GeoDiffException if any of the data could not be written
+    void close();
+
   private:
 
     void writeByte( char c );
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index b88e36a..6b117e7 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -95,6 +95,7 @@ int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraIn
     if ( !writer.open( changeset ) )
       throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->createChangeset( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -367,6 +368,7 @@ int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
   try
   {
     invertChangeset( reader, writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -549,8 +551,10 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // get source data
     {
       ChangesetWriter writer;
-      writer.open( tmpFileChangeset.c_path() );
+      if ( !writer.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
       driverSrc->dumpData( writer );
+      writer.close();
     }
 
     // create destination
@@ -566,7 +570,8 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // insert data to destination
     {
       ChangesetReader reader;
-      reader.open( tmpFileChangeset.c_path() );
+      if ( !reader.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for reading: " + tmpFileChangeset.path() );
       driverDst->applyChangeset( reader );
     }
   }
@@ -608,8 +613,10 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
 
     // get source data
     ChangesetWriter writer;
-    writer.open( changeset );
+    if ( !writer.open( changeset ) )
+      throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->dumpData( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 23dba80..ba8c741 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -572,6 +572,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
       }
     }
   }
+  writer.close();
 
   return GEODIFF_SUCCESS;
 }
-- 
2.43.0


From aacb5371da7d4789c64b8f4aac1f35b3346f45bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 16/54] fix: report failures to write JSON files

---
 geodiff/src/geodiff.cpp      | 3 ++-
 geodiff/src/geodiffutils.cpp | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 6b117e7..a21e1aa 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -317,13 +317,14 @@ static int listChangesJSON( const char *changeset, const char *jsonfile, bool on
       res = changesetToJSONSummary( reader );
     else
       res = changesetToJSON( reader );
+
+    flushString( jsonfile, res );
   }
   catch ( GeoDiffException exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
   }
-  flushString( jsonfile, res );
   return GEODIFF_SUCCESS;
 }
 
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 15368b9..c45e946 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -444,6 +444,8 @@ void flushString( const std::string &filename, const std::string &str )
   std::ofstream out( filename );
   out << str;
   out.close();
+  if ( out.fail() )
+    throw GeoDiffException( "Unable to write " + filename );
 }
 
 std::string getEnvVar( std::string const &key, const std::string &defaultVal )
-- 
2.43.0


From db2b935c5200536380dcfa445180b4409431afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 17/54] fix: report failures when copying files and writing
 buffers

---
 geodiff/src/geodiffutils.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index c45e946..413fd8c 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -188,8 +188,11 @@ void Buffer::write( const std::string &filename )
   {
     throw GeoDiffException( "Unable to open " + filename + " for writing" );
   }
-  fwrite( mZ, mAlloc, 1, f );
-  fclose( f );
+  bool ok = mAlloc == 0 || fwrite( mZ, mAlloc, 1, f ) == 1;
+  if ( fclose( f ) != 0 || !ok )
+  {
+    throw GeoDiffException( "Unable to write " + filename );
+  }
 }
 
 const char *Buffer::c_buf() const
@@ -288,7 +291,14 @@ void filecopy( const std::string &to, const std::string &from )
   std::ifstream  src( from, std::ios::binary );
   std::ofstream  dst( to,   std::ios::binary );
 
-  dst << src.rdbuf();
+  if ( !src.is_open() || !dst.is_open() )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
+
+  if ( src.peek() != std::ifstream::traits_type::eof() )  // inserting no characters would be a failure
+    dst << src.rdbuf();
+  dst.close();
+  if ( src.bad() || dst.fail() )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
 #endif
 }
 
-- 
2.43.0


From 9c8845934e29be63da15f26bdc6681530e583d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 18/54] fix: concatChangesets reports failures to combine
 changesets

---
 geodiff/src/geodiffrebase.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index ba8c741..5386c7c 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -649,7 +649,7 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
     return true;
   }
 
-  sqlite3_changegroup *pGrp;
+  sqlite3_changegroup *pGrp = nullptr;
   int rc = sqlite3changegroup_new( &pGrp );
   if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufA.size(), bufA.v_buf() );
   if ( rc == SQLITE_OK ) rc = sqlite3changegroup_add( pGrp, bufB.size(), bufB.v_buf() );
@@ -665,6 +665,9 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
       return true;
     }
 
+    sqlite3changegroup_delete( pGrp );
+    pGrp = nullptr;
+
     Buffer bufO;
     bufO.read( pnOut, ppOut );
     bufO.write( out );
@@ -673,6 +676,6 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
   if ( pGrp )
     sqlite3changegroup_delete( pGrp );
 
-  return false;
+  return rc != SQLITE_OK;
 }
 
-- 
2.43.0


From 11453a5f8139ad9fa6da2eb99e8f1dd6b19a3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 19/54] fix: escape backslashes, control characters and table
 names in JSON output

---
 geodiff/src/changesetutils.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index f348051..5ad5336 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -78,12 +78,27 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
 
 std::string escapeJSONString( std::string val )
 {
-  //val = replace( val, "\\", "\\\\" );  // TODO: escaping of backslashes?
+  val = replace( val, "\\", "\\\\" );
   val = replace( val, "\n", "\\n" );
   val = replace( val, "\r", "\\r" );
   val = replace( val, "\t", "\\t" );
   val = replace( val, "\"", "\\\"" );
-  return "\"" + val + "\"";
+
+  // the remaining control characters
+  std::string res;
+  for ( char c : val )
+  {
+    if ( static_cast<unsigned char>( c ) < 0x20 )
+    {
+      static const char *hexDigits = "0123456789abcdef";
+      res += "\\u00";
+      res += hexDigits[c / 16];
+      res += hexDigits[c % 16];
+    }
+    else
+      res += c;
+  }
+  return "\"" + res + "\"";
 }
 
 std::string valueToJSON( const Value &value )
@@ -122,7 +137,7 @@ std::string changesetEntryToJSON( const ChangesetEntry &entry )
     status = "delete";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + entry.table->name + "\",\n";
+  res += "        \"table\": " + escapeJSONString( entry.table->name ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"changes\": [";
   bool first = true;
@@ -224,7 +239,7 @@ std::string changesetToJSONSummary( ChangesetReader &reader )
   {
     std::string tableJson;
     tableJson += "      {\n";
-    tableJson += "         \"table\": \"" + kv.first + "\",\n";
+    tableJson += "         \"table\": " + escapeJSONString( kv.first ) + ",\n";
     tableJson += "         \"insert\": " + std::to_string( kv.second.inserts ) + ",\n";
     tableJson += "         \"update\": " + std::to_string( kv.second.updates ) + ",\n";
     tableJson += "         \"delete\": " + std::to_string( kv.second.deletes ) + "\n";
@@ -252,7 +267,7 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string status = "conflict";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + std::string( conflict.tableName() ) + "\",\n";
+  res += "        \"table\": " + escapeJSONString( conflict.tableName() ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"fid\": \"" + std::to_string( conflict.pk() ) + "\",\n";
   res += "        \"changes\": [";
-- 
2.43.0


From 7751612b89a51b47e4810e31defc02953a89916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 20/54] fix: do not lose precision of numbers in JSON output
 and PostgreSQL statements

---
 geodiff/src/changesetutils.cpp         |  5 ++++-
 geodiff/src/drivers/postgresdriver.cpp |  5 ++++-
 geodiff/src/geodiffutils.cpp           | 10 ++++++++++
 geodiff/src/geodiffutils.hpp           |  3 +++
 4 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 5ad5336..c2aaa56 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -11,6 +11,8 @@
 #include "changesetwriter.h"
 #include "tableschema.h"
 
+#include <cmath>
+
 
 ChangesetTable schemaToChangesetTable( const std::string &tableName, const TableSchema &tbl )
 {
@@ -110,7 +112,8 @@ std::string valueToJSON( const Value &value )
     case Value::TypeInt:
       return std::to_string( value.getInt() );
     case Value::TypeDouble:
-      return std::to_string( value.getDouble() );
+      // JSON has no way to write numbers that are not finite
+      return std::isfinite( value.getDouble() ) ? doubleToString( value.getDouble() ) : "null";
     case Value::TypeText:
       return escapeJSONString( value.getString() );
     case Value::TypeBlob:
diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index b078586..0e36afb 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -14,6 +14,7 @@
 #include "postgresutils.h"
 
 #include <algorithm>
+#include <cmath>
 #include <iostream>
 #include <memory.h>
 
@@ -502,7 +503,9 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
   }
   else if ( v.type() == Value::TypeDouble )
   {
-    return std::to_string( v.getDouble() );
+    if ( !std::isfinite( v.getDouble() ) )
+      return std::isnan( v.getDouble() ) ? "'NaN'" : ( v.getDouble() > 0 ? "'Infinity'" : "'-Infinity'" );
+    return doubleToString( v.getDouble() );
   }
   else if ( v.type() == Value::TypeText || v.type() == Value::TypeBlob )
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 413fd8c..771c563 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -353,6 +353,16 @@ std::string replace( const std::string &str, const std::string &substr, const st
 }
 
 
+std::string doubleToString( double value )
+{
+  char buf[64];
+  snprintf( buf, sizeof( buf ), "%f", value );  // more readable - if it does not lose anything
+  if ( strtod( buf, nullptr ) != value || strlen( buf ) > 30 )
+    snprintf( buf, sizeof( buf ), "%.17g", value );
+  return buf;
+}
+
+
 bool isLayerTable( const std::string &tableName )
 {
   /* typically geopackage from ogr would have these (table name is simple)
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index bd396fb..8d1eb8d 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -87,6 +87,9 @@ bool fileexists( const std::string &path );
 //! whether string starts with substring
 bool startsWith( const std::string &str, const std::string &substr );
 
+//! Converts number to text with enough digits so that reading it back gives exactly the same number
+std::string doubleToString( double value );
+
 //! Returns the same string converted to lower-case
 std::string lowercaseString( const std::string &str );
 
-- 
2.43.0


From 2369be9bacbcf9cf84444cce41292de1cb49d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 21/54] fix: allow diff of SQLite tables where all columns are
 in the primary key

---
 geodiff/src/drivers/sqlitedriver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index fd237ab..c4d6c28 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -387,6 +387,10 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
     }
   }
 
+  // a table where every column is part of the primary key has nothing that could be modified
+  if ( exprOther.empty() )
+    exprOther = "0";
+
   std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
                                   "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(), exprOther.c_str() );
   return sql;
-- 
2.43.0


From 9ff0ca1165ef6a51db46952dc04a0de240259b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 22/54] fix: do not cut SQLite text values at an embedded NUL
 character

---
 geodiff/src/drivers/sqlitedriver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index c4d6c28..ddfdef8 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -412,7 +412,11 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );
   else if ( type1 == SQLITE_TEXT )
   {
-    return strcmp( ( const char * ) sqlite3_value_text( v1 ), ( const char * ) sqlite3_value_text( v2 ) ) == 0;
+    const unsigned char *text1 = sqlite3_value_text( v1 );
+    const unsigned char *text2 = sqlite3_value_text( v2 );
+    int len1 = sqlite3_value_bytes( v1 );
+    int len2 = sqlite3_value_bytes( v2 );
+    return len1 == len2 && memcmp( text1, text2, len1 ) == 0;
   }
   else if ( type1 == SQLITE_BLOB )
   {
@@ -659,7 +663,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
   else if ( v.type() == Value::TypeNull )
     rc = sqlite3_bind_null( stmt, index );
   else if ( v.type() == Value::TypeText )
-    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), -1, SQLITE_TRANSIENT );
+    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else if ( v.type() == Value::TypeBlob )
     rc = sqlite3_bind_blob( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else
-- 
2.43.0


From db6c0b9d9e913641ce4fa03008d751f00989861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 23/54] fix: check every table header when applying a changeset
 to SQLite

---
 geodiff/src/drivers/sqlitedriver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index ddfdef8..9d64328 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -677,6 +677,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
 void SqliteDriver::applyChangeset( ChangesetReader &reader )
 {
   std::string lastTableName;
+  std::vector<bool> lastPrimaryKeys;
   std::unique_ptr<Sqlite3Stmt> stmtInsert, stmtUpdate, stmtDelete;
   TableSchema tbl;
 
@@ -708,10 +709,12 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   ChangesetEntry entry;
   while ( reader.nextEntry( entry ) )
   {
-    if ( entry.table->name != lastTableName )
+    // also check the table again if its header in the changeset has a different definition
+    if ( !stmtInsert || entry.table->name != lastTableName || entry.table->primaryKeys != lastPrimaryKeys )
     {
       std::string tableName = entry.table->name;
       lastTableName = tableName;
+      lastPrimaryKeys = entry.table->primaryKeys;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
-- 
2.43.0


From 0074aecf6e6c4948f018230f376e158519743e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 24/54] fix: do not reuse bound values of the previous update
 when applying a changeset

---
 geodiff/src/drivers/sqlitedriver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 9d64328..8b07107 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -763,10 +763,15 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
         const Value &vOld = entry.oldValues[i];
         const Value &vNew = entry.newValues[i];
         sqlite3_bind_int( stmtUpdate->get(), static_cast<int>( i ) * 3 + 2, vNew.type() != Value::TypeUndefined );
+        // undefined values must not keep what has been bound for the previous entry
         if ( vOld.type() != Value::TypeUndefined )
           bindValue( stmtUpdate->get(), static_cast<int>( i ) * 3 + 1, vOld );
+        else
+          sqlite3_bind_null( stmtUpdate->get(), static_cast<int>( i ) * 3 + 1 );
         if ( vNew.type() != Value::TypeUndefined )
           bindValue( stmtUpdate->get(), static_cast<int>( i ) * 3 + 3, vNew );
+        else
+          sqlite3_bind_null( stmtUpdate->get(), static_cast<int>( i ) * 3 + 3 );
       }
       if ( sqlite3_step( stmtUpdate->get() ) != SQLITE_DONE )
       {
-- 
2.43.0


From 903014864f4032008610f7b1fb9a9daec199d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 25/54] fix: quote names of SQLite triggers and check they get
 dropped and recreated

---
 geodiff/src/drivers/sqlitedriver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 8b07107..c0be888 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -700,8 +700,9 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   Sqlite3Stmt statament;
   for ( std::string name : triggerNames )
   {
-    statament.prepare( mDb, "drop trigger %s", name.c_str() );
-    sqlite3_step( statament.get() );
+    statament.prepare( mDb, "drop trigger \"%w\"", name.c_str() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Failed to drop trigger " + name );
     statament.close();
   }
 
@@ -816,7 +817,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   for ( std::string cmd : triggerCmds )
   {
     statament.prepare( mDb, "%s", cmd.c_str() );
-    sqlite3_step( statament.get() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Failed to recreate trigger: " + cmd );
     statament.close();
   }
 
-- 
2.43.0


From c69e3e864b5b1bd75dd9cb81cc60953442d3bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 26/54] fix: report SQLite errors when reading tables and
 schemas

---
 geodiff/src/drivers/sqlitedriver.cpp | 30 +++++++++++++++++++++-------
 geodiff/src/drivers/sqliteutils.cpp  | 19 +++++++++++++++---
 geodiff/src/drivers/sqliteutils.h    |  3 +++
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index c0be888..7b3e92c 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -178,7 +178,8 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
                                " ORDER BY name";
   Sqlite3Stmt statement;
   statement.prepare( mDb, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statement.get() ) ) )
   {
     const char *name = ( const char * )sqlite3_column_text( statement.get(), 0 );
     if ( !name )
@@ -212,6 +213,7 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
 
     tableNames.push_back( tableName );
   }
+  checkStepDone( mDb, rc );
 
   // result is ordered by name
   return tableNames;
@@ -222,7 +224,10 @@ bool tableExists( std::shared_ptr<Sqlite3Db> db, const std::string &tableName, c
   Sqlite3Stmt stmtHasGeomColumnsInfo;
   stmtHasGeomColumnsInfo.prepare( db, "SELECT name FROM \"%w\".sqlite_master WHERE type='table' "
                                   "AND name='%q'", dbName.c_str(), tableName.c_str() );
-  return sqlite3_step( stmtHasGeomColumnsInfo.get() ) == SQLITE_ROW;
+  int rc = sqlite3_step( stmtHasGeomColumnsInfo.get() );
+  if ( rc != SQLITE_ROW )
+    checkStepDone( db, rc );
+  return rc == SQLITE_ROW;
 }
 
 TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useModified )
@@ -237,7 +242,8 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
   Sqlite3Stmt statement;
   statement.prepare( mDb, "PRAGMA '%q'.table_info('%q')", dbName.c_str(), tableName.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statement.get() ) ) )
   {
     const unsigned char *zName = sqlite3_column_text( statement.get(), 1 );
     if ( zName == nullptr )
@@ -257,6 +263,7 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
     tbl.columns.push_back( columnInfo );
   }
+  checkStepDone( mDb, rc );
 
   // check if the geometry columns table is present (it may not be if this is a "pure" sqlite file)
   if ( !tableExists( mDb, "gpkg_geometry_columns", dbName ) )
@@ -269,7 +276,10 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
   int srsId = -1;
   Sqlite3Stmt stmtGeomCol;
   stmtGeomCol.prepare( mDb, "SELECT * FROM \"%w\".gpkg_geometry_columns WHERE table_name = '%q'", dbName.c_str(), tableName.c_str() );
-  if ( SQLITE_ROW == sqlite3_step( stmtGeomCol.get() ) )
+  rc = sqlite3_step( stmtGeomCol.get() );
+  if ( rc != SQLITE_ROW )
+    checkStepDone( mDb, rc );
+  else
   {
     const unsigned char *chrColumnName = sqlite3_column_text( stmtGeomCol.get(), 1 );
     const unsigned char *chrTypeName = sqlite3_column_text( stmtGeomCol.get(), 2 );
@@ -457,7 +467,8 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
   std::string sqlInserted = sqlFindInserted( tableName, tbl, reverse );
   Sqlite3Stmt statementI;
   statementI.prepare( db, "%s", sqlInserted.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statementI.get() ) ) )
   {
     if ( first )
     {
@@ -481,6 +492,7 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
 
     writer.writeEntry( e );
   }
+  checkStepDone( db, rc );
 }
 
 static void handleUpdated( const std::string &tableName, const TableSchema &tbl, std::shared_ptr<Sqlite3Db> db, ChangesetWriter &writer, bool &first )
@@ -489,7 +501,8 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
   Sqlite3Stmt statement;
   statement.prepare( db, "%s", sqlModified.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statement.get() ) ) )
   {
     if ( first )
     {
@@ -525,6 +538,7 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
     writer.writeEntry( e );
   }
+  checkStepDone( db, rc );
 }
 
 void SqliteDriver::createChangeset( ChangesetWriter &writer )
@@ -965,7 +979,8 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
     bool first = true;
     Sqlite3Stmt statementI;
     statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+    int rc;
+    while ( SQLITE_ROW == ( rc = sqlite3_step( statementI.get() ) ) )
     {
       if ( first )
       {
@@ -983,6 +998,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
       }
       writer.writeEntry( e );
     }
+    checkStepDone( mDb, rc );
   }
 }
 
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index b6c1ba6..7aa5d90 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -196,6 +196,13 @@ std::string Sqlite3Value::toString( sqlite3_value *ppValue )
 ///
 
 
+void checkStepDone( std::shared_ptr<Sqlite3Db> db, int rc )
+{
+  if ( rc != SQLITE_DONE )
+    throw GeoDiffException( "SQL query error: " + std::string( sqlite3_errmsg( db->get() ) ) );
+}
+
+
 bool register_gpkg_extensions( std::shared_ptr<Sqlite3Db> db )
 {
   // register GPKG functions like ST_IsEmpty
@@ -233,7 +240,8 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
 
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", "select name, sql from sqlite_master where type = 'trigger'" );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statament.get() ) ) )
   {
     const char *name = ( char * ) sqlite3_column_text( statament.get(), 0 );
     const char *sql = ( char * ) sqlite3_column_text( statament.get(), 1 );
@@ -283,6 +291,7 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
     triggerNames.push_back( name );
     triggerCmds.push_back( sql );
   }
+  checkStepDone( db, rc );
   statament.close();
 }
 
@@ -300,7 +309,8 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
     {
       Sqlite3Stmt pStmt;     /* SQL statement being run */
       pStmt.prepare( db, "SELECT * FROM %s.pragma_foreign_key_list(%Q)", dbName.c_str(), fromTableName.c_str() );
-      while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+      int rc;
+      while ( SQLITE_ROW == ( rc = sqlite3_step( pStmt.get() ) ) )
       {
         const char *fk_to_table = ( const char * )sqlite3_column_text( pStmt.get(), 2 );
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
@@ -326,6 +336,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
           ret.insert( std::pair<TableColumn, TableColumn>( from, to ) );
         }
       }
+      checkStepDone( db, rc );
       pStmt.close();
     }
   }
@@ -344,7 +355,8 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
                                " ORDER BY name";
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statament.get() ) ) )
   {
     const char *name = ( const char * )sqlite3_column_text( statament.get(), 0 );
     if ( !name )
@@ -378,6 +390,7 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
 
     tableNames.push_back( tableName );
   }
+  checkStepDone( db, rc );
 
   // result is ordered by name
 }
diff --git a/geodiff/src/drivers/sqliteutils.h b/geodiff/src/drivers/sqliteutils.h
index b6038f1..e03428c 100644
--- a/geodiff/src/drivers/sqliteutils.h
+++ b/geodiff/src/drivers/sqliteutils.h
@@ -83,6 +83,9 @@ class Sqlite3Value
 };
 
 
+//! Throws an exception if the last call of sqlite3_step() that has returned no row was an error
+void checkStepDone( std::shared_ptr<Sqlite3Db> db, int rc );
+
 bool register_gpkg_extensions( std::shared_ptr<Sqlite3Db> db );
 
 bool isGeoPackage( std::shared_ptr<Sqlite3Db> db );
-- 
2.43.0


From 84484a1b6e50f46c015810face5140c1624464d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 27/54] fix: do not terminate when the PostgreSQL connection is
 lost, do not leak failed connections

---
 geodiff/src/drivers/postgresdriver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 0e36afb..ea55150 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -41,8 +41,9 @@ class PostgresTransaction
     {
       if ( mConn )
       {
-        // we had some problems - roll back any pending changes
-        PostgresResult res( execSql( mConn, "ROLLBACK" ) );
+        // we had some problems - roll back any pending changes (not using execSql() as that
+        // could throw an exception - if the connection is lost, the server does the roll back)
+        PostgresResult res( ::PQexec( mConn, "ROLLBACK" ) );
       }
     }
 
@@ -98,7 +99,9 @@ void PostgresDriver::openPrivate( const DriverParametersMap &conn )
 
   if ( PQstatus( c ) != CONNECTION_OK )
   {
-    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + std::string( PQerrorMessage( c ) ) );
+    std::string err( PQerrorMessage( c ) );
+    PQfinish( c );
+    throw GeoDiffException( "Cannot connect to PostgreSQL database: " + err );
   }
 
   mConn = c;
-- 
2.43.0


From 152f8f856a8983d9c05609500cce3d1c87b5eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:34 +0000
Subject: [PATCH 28/54] fix: allow diff of PostgreSQL tables where all columns
 are in the primary key

---
 geodiff/src/drivers/postgresdriver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index ea55150..b09b44c 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -396,6 +396,10 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
     }
   }
 
+  // a table where every column is part of the primary key has nothing that could be modified
+  if ( exprOther.empty() )
+    exprOther = "FALSE";
+
   std::string sql = "SELECT " + allColumnNames( tbl, "a" ) + ", " + allColumnNames( tbl, "b" ) + " FROM " +
                     quotedIdentifier( schemaNameModified ) + "." + quotedIdentifier( tableName ) + " a, " +
                     quotedIdentifier( schemaNameBase ) + "." + quotedIdentifier( tableName ) + " b" +
-- 
2.43.0


From e19222a53c7b361b8aa6895cbe5c5fe3ec3708ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 29/54] fix: PostgreSQL diff finds changes between NULL and
 other values

---
 geodiff/src/drivers/postgresdriver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index b09b44c..a1c15dd 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -392,7 +392,8 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
 
       std::string colBase = "b." + quotedIdentifier( c.name );
       std::string colModified = "a." + quotedIdentifier( c.name );
-      exprOther += "NOT ((" + colBase + " IS NULL AND " + colModified + " IS NULL) OR (" + colBase + " = " + colModified + "))";
+      // comparing a value with NULL using "=" gives NULL (neither true nor false)
+      exprOther += "(" + colBase + " IS DISTINCT FROM " + colModified + ")";
     }
   }
 
-- 
2.43.0


From 7f178ea717b5e325dbd13198b8ee72d1f5ea9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 30/54] fix: a missing row to delete is a conflict in
 PostgreSQL too

---
 geodiff/src/drivers/postgresdriver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index a1c15dd..e8be342 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -838,6 +838,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
       if ( res.affectedRows() != "1" )
       {
         logApplyConflict( "delete_nothing", entry );
+        ++conflictCount;
         Logger::instance().warn( "Wrong number of affected rows! Expected 1, got: " + res.affectedRows() );
       }
     }
-- 
2.43.0


From dea97de8d9e4b55269106404332dfaedf54c90d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 31/54] fix: quote table names in PostgreSQL statements

---
 geodiff/src/drivers/postgresdriver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index e8be342..87de30b 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -364,9 +364,9 @@ static std::string sqlFindInserted( const std::string &schemaNameBase, const std
   }
 
   std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + quotedIdentifier( tableName ) +
                     " WHERE NOT EXISTS ( SELECT 1 FROM " +
-                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + quotedIdentifier( tableName ) +
                     " WHERE " + exprPk + ")";
   return sql;
 }
@@ -932,7 +932,7 @@ void PostgresDriver::createTables( const std::vector<TableSchema> &tables )
       }
     }
 
-    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + tbl.name + " (";
+    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + quotedIdentifier( tbl.name ) + " (";
     sql += columns;
     sql += ", PRIMARY KEY (" + pkeyCols + ")";
     sql += ");";
@@ -957,7 +957,7 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
       continue;  // ignore tables without primary key - they can't be compared properly
 
     std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + tableName;
+                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + quotedIdentifier( tableName );
 
     PostgresResult res( execSql( mConn, sql ) );
     int rows = res.rowCount();
-- 
2.43.0


From cdfc88d49758fb39d4e9a75e1254a7f25e2aa973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 32/54] fix: recognize all GeoPackage meta tables when creating
 PostgreSQL tables

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 87de30b..8e8bfb9 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -907,7 +907,7 @@ void PostgresDriver::createTables( const std::vector<TableSchema> &tables )
   for ( const TableSchema &tbl : tables )
   {
     // TODO: in the future sqlite driver should not add any changes to meta tables
-    if ( tbl.name.rfind( "gpkg_" ) == 0 )
+    if ( tbl.name.rfind( "gpkg_", 0 ) == 0 )
       continue;   // skip any changes to GPKG meta tables
 
     std::string sql, pkeyCols, columns;
-- 
2.43.0


From 61983baa28a6ef3c2d2fe87b9fefeee4938e2df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 33/54] fix: skip the envelope of GeoPackage geometries, refuse
 invalid ones

---
 geodiff/src/drivers/postgresdriver.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 8e8bfb9..a436cb4 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -492,6 +492,22 @@ static Value resultToValue( const PostgresResult &res, int r, size_t i, const Ta
 }
 
 
+//! Returns size of the header of a geometry in GeoPackage encoding (it may include an envelope)
+static size_t gpkgHeaderSize( const std::string &gpkgWkb )
+{
+  static const size_t envelopeSize[] = { 0, 32, 48, 48, 64 };
+
+  if ( gpkgWkb.size() < 8 || gpkgWkb[0] != 'G' || gpkgWkb[1] != 'P' )
+    throw GeoDiffException( "Unexpected header of a geometry value" );
+
+  int envelopeType = ( gpkgWkb[3] >> 1 ) & 7;
+  if ( envelopeType > 4 || gpkgWkb.size() < 8 + envelopeSize[envelopeType] )
+    throw GeoDiffException( "Unexpected envelope of a geometry value" );
+
+  return 8 + envelopeSize[envelopeType];
+}
+
+
 static std::string valueToSql( const Value &v, const TableColumnInfo &col )
 {
   if ( v.type() == Value::TypeUndefined )
@@ -521,8 +537,7 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
     {
       // handling of geometries - they are encoded with GPKG header
       std::string gpkgWkb = v.getString();
-      std::string wkb( gpkgWkb.size() - 8, 0 );
-      memcpy( &wkb[0], &gpkgWkb[8], gpkgWkb.size() - 8 );
+      std::string wkb = gpkgWkb.substr( gpkgHeaderSize( gpkgWkb ) );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
     return quotedString( v.getString() );
-- 
2.43.0


From 1cdb87f29f2a87801fc0e31c3fdc63e0818c8a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 34/54] fix: write binary values to PostgreSQL as binary

---
 geodiff/src/drivers/postgresdriver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index a436cb4..8c9f83b 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -540,6 +540,8 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
       std::string wkb = gpkgWkb.substr( gpkgHeaderSize( gpkgWkb ) );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
+    if ( v.type() == Value::TypeBlob )
+      return "'\\x" + bin2hex( v.getString() ) + "'";
     return quotedString( v.getString() );
   }
   else
-- 
2.43.0


From 320cb142500296daa5473f4e3fb8d79326d079bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 35/54] fix: PostgreSQL sequences may have values over 32 bits,
 refuse other than integer keys

---
 geodiff/src/drivers/postgresdriver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 8c9f83b..6161e45 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -818,6 +818,8 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
 
       if ( autoIncrementPkeyIndex != -1 )
       {
+        if ( entry.newValues[autoIncrementPkeyIndex].type() != Value::TypeInt )
+          throw GeoDiffException( "Expected an integer primary key in table: " + tableName );
         int64_t pkey = entry.newValues[autoIncrementPkeyIndex].getInt();
         if ( autoIncrementTablesToFix.find( tableName ) == autoIncrementTablesToFix.end() )
           autoIncrementTablesToFix[tableName] = pkey;
@@ -907,7 +909,10 @@ void PostgresDriver::updateSequenceObject( const std::string &seqName, int64_t m
 {
   PostgresResult resCurrVal( execSql( mConn, "SELECT last_value FROM " + seqName ) );
   std::string currValueStr = resCurrVal.value( 0, 0 );
-  int currValue = std::stoi( currValueStr );
+  char *currValueEnd = nullptr;
+  int64_t currValue = strtoll( currValueStr.c_str(), &currValueEnd, 10 );
+  if ( currValueStr.empty() || *currValueEnd )
+    throw GeoDiffException( "Unexpected last value of sequence " + seqName + ": " + currValueStr );
 
   if ( currValue < maxValue )
   {
-- 
2.43.0


From 7f8367f5d2c13679b586f5e78d73e1110ccf505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 36/54] fix: check every table header when applying a changeset
 to PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 6161e45..2ddb935 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -758,6 +758,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
     throw GeoDiffException( "Not connected to a database" );
 
   std::string lastTableName;
+  std::vector<bool> lastPrimaryKeys;
   TableSchema tbl;
 
   int autoIncrementPkeyIndex = -1;
@@ -777,9 +778,11 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
     if ( tableName.rfind( "gpkg_", 0 ) == 0 )
       continue;   // skip any changes to GPKG meta tables
 
-    if ( tableName != lastTableName )
+    // also check the table again if its header in the changeset has a different definition
+    if ( tbl.columns.empty() || tableName != lastTableName || entry.table->primaryKeys != lastPrimaryKeys )
     {
       lastTableName = tableName;
+      lastPrimaryKeys = entry.table->primaryKeys;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
-- 
2.43.0


From daa11ba4c0f671712a04e8042b520a483838df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 37/54] fix: report invalid hexadecimal numbers

---
 geodiff/src/changesetutils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index c2aaa56..217caf1 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -344,7 +344,7 @@ inline int hex2num( unsigned char i )
     return 10 + i - 'A';
   if ( i >= 'a' && i <= 'f' )
     return 10 + i - 'a';
-  assert( false );
+  throw GeoDiffException( "Unexpected character in hexadecimal number" );
 }
 
 inline char num2hex( int n )
@@ -358,7 +358,8 @@ inline char num2hex( int n )
 
 std::string hex2bin( const std::string &str )
 {
-  assert( str.size() % 2 == 0 );
+  if ( str.size() % 2 != 0 )
+    throw GeoDiffException( "Unexpected length of hexadecimal number" );
   std::string output( str.size() / 2, 0 );
   for ( size_t i = 0; i < str.size(); i += 2 )
   {
-- 
2.43.0


From 02baa66e59980e6f501653ec9708d7c85de614c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 38/54] fix: do not keep the conflict file of an earlier rebase
 when there are no conflicts

---
 geodiff/src/geodiff.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index a21e1aa..6fa7851 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -209,6 +209,8 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
 
   // TODO: call checkCompatibleForRebase()
 
+  fileremove( conflictfile );  // there may be one from an earlier run
+
   try
   {
     std::vector<ConflictFeature> conflicts;
@@ -425,6 +427,8 @@ int GEODIFF_rebaseEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 
+  fileremove( conflictfile );  // there may be one from an earlier run
+
   try
   {
     std::string root = tmpdir() + "geodiff_" + randomString( 6 );
-- 
2.43.0


From fc47f19b292102a67013c22b87f203f50cb30afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 39/54] fix: temporary directory set without trailing slash

---
 geodiff/src/geodiffutils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 771c563..37d0741 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -488,7 +488,10 @@ std::string tmpdir()
 
   return wstringToString( tempDirPath );
 #else
-  return getEnvVar( "TMPDIR", "/tmp/" );
+  std::string dir = getEnvVar( "TMPDIR", "/tmp/" );
+  if ( dir.empty() || dir.back() != '/' )
+    dir += '/';
+  return dir;
 #endif
 }
 
-- 
2.43.0


From a990f3a7851090ee6973077b6bd432075048aa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 40/54] fix: refuse files too large to be read to a buffer

---
 geodiff/src/geodiffutils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 37d0741..f5bda28 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 #include <stdarg.h>
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 #include <sqlite3.h>
 #include <exception>
@@ -108,6 +109,11 @@ void Buffer::read( const std::string &filename )
     fclose( fp );
     throw GeoDiffException( "Unable to read file size of " + filename );
   }
+  if ( off_end > INT_MAX )
+  {
+    fclose( fp );
+    throw GeoDiffException( "Too large file: " + filename );
+  }
   mAlloc = ( size_t )off_end;
   mUsed = mAlloc;
 
-- 
2.43.0


From 4a9f7978af1da25b032d158230b9d06b42c86be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 41/54] fix: default logger prints info messages

---
 geodiff/src/geodifflogger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geodiff/src/geodifflogger.cpp b/geodiff/src/geodifflogger.cpp
index 8350f4d..2d42088 100644
--- a/geodiff/src/geodifflogger.cpp
+++ b/geodiff/src/geodifflogger.cpp
@@ -28,6 +28,9 @@ void StdoutLogger( GEODIFF_LoggerLevel level, const char *msg )
     case LevelWarning:
       std::cout << "Warn: " << msg << std::endl;
       break;
+    case LevelInfo:
+      std::cout << "Info: " << msg << std::endl;
+      break;
     case LevelDebug:
       std::cout << "Debug: " << msg << std::endl;
       break;
-- 
2.43.0


From be17b3abbaf9ebbb7135ec1c9d93d0536872c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 42/54] fix: recognize foreign keys that do not name the
 referenced column

---
 geodiff/src/drivers/sqliteutils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index 7aa5d90..f4f347b 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -316,7 +316,8 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
         const char *fk_from = ( const char * )sqlite3_column_text( pStmt.get(), 3 );
         const char *fk_to = ( const char * )sqlite3_column_text( pStmt.get(), 4 );
 
-        if ( fk_to_table && fk_from && fk_to )
+        // fk_to is NULL if it is the primary key of the other table without being named
+        if ( fk_to_table && fk_from )
         {
           // TODO: this part is not speed-optimized and could be slower for databases with a lot of
           // columns and/or foreign keys. For each entry we grab column names again
@@ -327,7 +328,7 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
             continue;
 
           std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
-          int fk_to_id = indexOf( toColumnNames, fk_to );
+          int fk_to_id = fk_to ? indexOf( toColumnNames, fk_to ) : 0;
           if ( fk_to_id < 0 )
             continue;
 
-- 
2.43.0


From c72efd97d36ee5b0bc67f5b42bd7066398e4abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 43/54] fix: keep an empty temporary directory setting as it
 was

---
 geodiff/src/geodiffutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index f5bda28..3dc57bc 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -495,7 +495,7 @@ std::string tmpdir()
   return wstringToString( tempDirPath );
 #else
   std::string dir = getEnvVar( "TMPDIR", "/tmp/" );
-  if ( dir.empty() || dir.back() != '/' )
+  if ( !dir.empty() && dir.back() != '/' )
     dir += '/';
   return dir;
 #endif
-- 
2.43.0


From 871a9493b8d839fd1213392db922848cc354c0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:49 +0000
Subject: [PATCH 44/54] fix: rebase noticed no clash with an inserted row moved
 to key -1

---
 geodiff/src/geodiffrebase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 5386c7c..0c6f653 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -305,10 +305,12 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     std::string tableName = pair.first;
 
     // make a set of all new pkeys
+    // (a moved insert may legitimately get the same value that marks deleted rows)
+    const std::set<int> &theirsInserted = dbInfo.tables.at( tableName ).inserted;
     std::set<int> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
     {
-      if ( oldNewPair.second != RebaseMapping::INVALID_FID )
+      if ( oldNewPair.second != RebaseMapping::INVALID_FID || theirsInserted.find( oldNewPair.first ) != theirsInserted.end() )
         usedNewPkeys.insert( oldNewPair.second );
     }
 
-- 
2.43.0


From 0dbf27b7b01ea59aaef94dd705eacd8a9a19495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 45/54] fix: ON CONFLICT clauses of a table do not drop rows or
 end the transaction while applying a changeset

---
 geodiff/src/drivers/sqlitedriver.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 7b3e92c..4dbb62b 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -579,11 +579,13 @@ static std::string sqlForInsert( const std::string &tableName, const TableSchema
   /*
    * For a table defined like this: CREATE TABLE x(a, b, c, d, PRIMARY KEY(a, c));
    *
-   * INSERT INTO x (a, b, c, d) VALUES (?, ?, ?, ?)
+   * INSERT OR ABORT INTO x (a, b, c, d) VALUES (?, ?, ?, ?)
+   *
+   * (ABORT overrides ON CONFLICT clauses of the table: they could drop other rows or end our transaction)
    */
 
   std::string sql;
-  sql += sqlitePrintf( "INSERT INTO \"%w\" (", tableName.c_str() );
+  sql += sqlitePrintf( "INSERT OR ABORT INTO \"%w\" (", tableName.c_str() );
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
   {
     if ( i > 0 )
@@ -606,7 +608,7 @@ static std::string sqlForUpdate( const std::string &tableName, const TableSchema
   /*
   ** For a table defined like this: CREATE TABLE x(a, b, c, d, PRIMARY KEY(a, c));
   **
-  **     UPDATE x SET
+  **     UPDATE OR ABORT x SET
   **     a = CASE WHEN ?2  THEN ?3  ELSE a END,
   **     b = CASE WHEN ?5  THEN ?6  ELSE b END,
   **     c = CASE WHEN ?8  THEN ?9  ELSE c END,
@@ -623,7 +625,7 @@ static std::string sqlForUpdate( const std::string &tableName, const TableSchema
   */
 
   std::string sql;
-  sql += sqlitePrintf( "UPDATE \"%w\" SET ", tableName.c_str() );
+  sql += sqlitePrintf( "UPDATE OR ABORT \"%w\" SET ", tableName.c_str() );
 
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
   {
-- 
2.43.0


From a44c42dae69e72d6def3de8e4b491ddd55f067ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 46/54] fix: applying a changeset stops when the database has
 rolled back its transaction

---
 geodiff/src/drivers/sqlitedriver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 4dbb62b..2e0c061 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -827,6 +827,11 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
     }
     else
       throw GeoDiffException( "Unexpected operation" );
+
+    // SQLite ends the transaction by itself after some errors (e.g. a full disk or RAISE(ROLLBACK) in a trigger),
+    // anything executed after that would be kept in the database
+    if ( conflictCount && sqlite3_get_autocommit( mDb->get() ) )
+      throw GeoDiffException( "Transaction has been rolled back while applying changes" );
   }
 
   // recreate triggers
-- 
2.43.0


From 0dc27e55f0d8d6549969ef1261e7f885cd0eac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:21 +0000
Subject: [PATCH 47/54] fix: differences and dumps of tables with generated
 columns had misplaced values

---
 geodiff/src/drivers/sqlitedriver.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 2e0c061..4145682 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -353,6 +353,20 @@ static std::string sqlitePrintf( const char *zFormat, ... )
   return res;
 }
 
+//! Returns comma separated list of all columns of the table for use in SELECT. The "*" must not be used for that
+//! as it would also include generated columns which are not a part of the table schema
+static std::string sqlColumns( const std::string &dbName, const std::string &tableName, const TableSchema &tbl )
+{
+  std::string sql;
+  for ( const TableColumnInfo &c : tbl.columns )
+  {
+    if ( !sql.empty() )
+      sql += ", ";
+    sql += sqlitePrintf( "\"%w\".\"%w\".\"%w\"", dbName.c_str(), tableName.c_str(), c.name.c_str() );
+  }
+  return sql;
+}
+
 //! Constructs SQL query to get all rows that do not exist in the other table (used for insert and delete)
 static std::string sqlFindInserted( const std::string &tableName, const TableSchema &tbl, bool reverse )
 {
@@ -368,7 +382,8 @@ static std::string sqlFindInserted( const std::string &tableName, const TableSch
     }
   }
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+  std::string sql = sqlitePrintf( "SELECT %s FROM \"%w\".\"%w\" WHERE NOT EXISTS ( SELECT 1 FROM \"%w\".\"%w\" WHERE %s)",
+                                  sqlColumns( reverse ? "aux" : "main", tableName, tbl ).c_str(),
                                   reverse ? "aux" : "main", tableName.c_str(),
                                   reverse ? "main" : "aux", tableName.c_str(), exprPk.c_str() );
   return sql;
@@ -401,7 +416,8 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
   if ( exprOther.empty() )
     exprOther = "0";
 
-  std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+  std::string sql = sqlitePrintf( "SELECT %s, %s FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
+                                  sqlColumns( "main", tableName, tbl ).c_str(), sqlColumns( "aux", tableName, tbl ).c_str(),
                                   "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(), exprOther.c_str() );
   return sql;
 }
@@ -985,7 +1001,7 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
 
     bool first = true;
     Sqlite3Stmt statementI;
-    statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
+    statementI.prepare( mDb, "SELECT %s FROM \"%w\".\"%w\"", sqlColumns( dbName, tableName, tbl ).c_str(), dbName.c_str(), tableName.c_str() );
     int rc;
     while ( SQLITE_ROW == ( rc = sqlite3_step( statementI.get() ) ) )
     {
-- 
2.43.0


From 8a1cd6faec3a9705e81ce541df68632e4ac6b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 48/54] fix: a sequence not used yet could return the key of an
 applied insert

---
 geodiff/src/drivers/postgresdriver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 2ddb935..acd50aa 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -910,7 +910,8 @@ std::string PostgresDriver::getSequenceObjectName( const TableSchema &tbl, int &
 
 void PostgresDriver::updateSequenceObject( const std::string &seqName, int64_t maxValue )
 {
-  PostgresResult resCurrVal( execSql( mConn, "SELECT last_value FROM " + seqName ) );
+  // a sequence that has not been used yet will return its last_value as the next value
+  PostgresResult resCurrVal( execSql( mConn, "SELECT last_value - CASE WHEN is_called THEN 0 ELSE 1 END FROM " + seqName ) );
   std::string currValueStr = resCurrVal.value( 0, 0 );
   char *currValueEnd = nullptr;
   int64_t currValue = strtoll( currValueStr.c_str(), &currValueEnd, 10 );
-- 
2.43.0


From a88ad540ceba033c4db3a5bc86c60faf22b5d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:44 +0000
Subject: [PATCH 49/54] fix: calls in different processes used the same
 temporary files

---
 geodiff/src/geodiff.cpp      |  4 ++--
 geodiff/src/geodiffutils.cpp | 13 +++++++++++++
 geodiff/src/geodiffutils.hpp |  6 ++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 6fa7851..e0fd2d3 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -431,7 +431,7 @@ int GEODIFF_rebaseEx( const char *driverName,
 
   try
   {
-    std::string root = tmpdir() + "geodiff_" + randomString( 6 );
+    std::string root = tmpFilePath( "geodiff_" );
 
     // situation 1: base2theirs is null, so we do not need rebase. modified is already fine
     int theirsHasChanges = GEODIFF_hasChanges( base2their );
@@ -532,7 +532,7 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     return GEODIFF_ERROR;
   }
 
-  TmpFile tmpFileChangeset( tmpdir() + "geodiff_changeset" + std::to_string( rand() ) );
+  TmpFile tmpFileChangeset( tmpFilePath( "geodiff_changeset" ) );
 
   try
   {
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 3dc57bc..007273f 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -15,6 +15,7 @@
 #include <limits.h>
 #include <string.h>
 #include <sqlite3.h>
+#include <atomic>
 #include <exception>
 #include <fstream>
 #include <string>
@@ -501,6 +502,18 @@ std::string tmpdir()
 #endif
 }
 
+std::string tmpFilePath( const std::string &prefix )
+{
+  // random numbers are not enough: the generator is not seeded, so each process gets the same ones
+  static std::atomic<unsigned long> counter( 0 );
+#ifdef WIN32
+  unsigned long pid = GetCurrentProcessId();
+#else
+  unsigned long pid = static_cast<unsigned long>( getpid() );
+#endif
+  return tmpdir() + prefix + std::to_string( pid ) + "_" + std::to_string( counter++ ) + "_" + randomString( 6 );
+}
+
 std::wstring stringToWString( const std::string &str )
 {
   // we need to convert UTF-8 string to UTF-16 in order to use WindowsAPI
diff --git a/geodiff/src/geodiffutils.hpp b/geodiff/src/geodiffutils.hpp
index 8d1eb8d..74fef68 100644
--- a/geodiff/src/geodiffutils.hpp
+++ b/geodiff/src/geodiffutils.hpp
@@ -118,6 +118,12 @@ std::string getEnvVar( std::string const &key, const std::string &defaultVal );
 //! Returns temporary directory (including trailing slash)
 std::string tmpdir();
 
+/**
+ * Returns path in the temporary directory starting with the prefix, which is not used by any other
+ * call at the same time - neither in this process nor in other processes
+ */
+std::string tmpFilePath( const std::string &prefix );
+
 //! Returns string given number of random alpha-numeric characters
 std::string randomString( size_t length );
 
-- 
2.43.0


From 22bd4f333becc7138d6ac808e01fe8077820c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 50/54] fix: PostgreSQL columns that are also in other indexes
 were listed repeatedly

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index acd50aa..5775919 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -256,7 +256,7 @@ TableSchema PostgresDriver::tableSchema( const std::string &tableName, bool useM
     "                 || '''::regclass)'"
     "       ) AS has_sequence"
     " FROM pg_catalog.pg_attribute a"
-    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey)"
+    " LEFT JOIN pg_index i ON a.attrelid = i.indrelid AND a.attnum = ANY(i.indkey) AND i.indisprimary"
     " WHERE"
     "   a.attnum > 0"
     "   AND NOT a.attisdropped"
-- 
2.43.0


From 54a0821306827affa026e9098bccb7f3cf27427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 51/54] fix: foreign keys to missing or differently spelled
 columns are foreign keys too

---
 geodiff/src/drivers/sqliteutils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index f4f347b..167ff5f 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -328,9 +328,8 @@ ForeignKeys sqliteForeignKeys( std::shared_ptr<Sqlite3Db> db, const std::string
             continue;
 
           std::vector<std::string> toColumnNames = sqliteColumnNames( db, dbName, fk_to_table );
+          // (-1 if the other table has no such column, or its name is written in other letter case)
           int fk_to_id = fk_to ? indexOf( toColumnNames, fk_to ) : 0;
-          if ( fk_to_id < 0 )
-            continue;
 
           TableColumn from( fromTableName, fk_from_id );
           TableColumn to( fk_to_table, fk_to_id );
-- 
2.43.0


From 1da0cfeff9edae961d3d1ae5b778b2a661b76cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 52/54] fix: report SQLite errors when reading columns for
 foreign keys

A database with foreign keys was taken for one without them, or the process crashed,
if its indexes or columns could not be read.
---
 geodiff/src/drivers/sqliteutils.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index 167ff5f..1e093b6 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -422,7 +422,8 @@ std::vector<std::string> sqliteColumnNames(
   */
   const char *zTab = tableName.c_str();
   pStmt.prepare( db, "PRAGMA %s.index_list=%Q", zDb.c_str(), zTab );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( pStmt.get() ) ) )
   {
     if ( sqlite3_stricmp( ( const char * )sqlite3_column_text( pStmt.get(), 3 ), "pk" ) == 0 )
     {
@@ -430,6 +431,8 @@ std::vector<std::string> sqliteColumnNames(
       break;
     }
   }
+  if ( rc != SQLITE_ROW )
+    checkStepDone( db, rc );
   pStmt.close();
 
   if ( !zPkIdxName.empty() )
@@ -438,12 +441,13 @@ std::vector<std::string> sqliteColumnNames(
     int nCol = 0;
     truePk = 0;
     pStmt.prepare( db, "PRAGMA %s.index_xinfo=%Q", zDb.c_str(), zPkIdxName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+    while ( SQLITE_ROW == ( rc = sqlite3_step( pStmt.get() ) ) )
     {
       nCol++;
       if ( sqlite3_column_int( pStmt.get(), 5 ) ) { nKey++; continue; }
       if ( sqlite3_column_int( pStmt.get(), 1 ) >= 0 ) truePk = 1;
     }
+    checkStepDone( db, rc );
     if ( nCol == nKey ) truePk = 1;
     if ( truePk )
     {
@@ -464,7 +468,7 @@ std::vector<std::string> sqliteColumnNames(
 
   naz = nPK;
   az.resize( naz );
-  while ( SQLITE_ROW == sqlite3_step( pStmt.get() ) )
+  while ( SQLITE_ROW == ( rc = sqlite3_step( pStmt.get() ) ) )
   {
     int iPKey;
     std::string name = ( char * )sqlite3_column_text( pStmt.get(), 1 );
@@ -477,6 +481,7 @@ std::vector<std::string> sqliteColumnNames(
       az.push_back( name );
     }
   }
+  checkStepDone( db, rc );
   pStmt.close();
 
   /* If this table has an implicit rowid for a PK, figure out how to refer
-- 
2.43.0


From fc9724d7f0fd27774337cece6c1c48a2cb3250d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 53/54] fix: leave out all internal tables of SQLite when
 comparing databases

Running ANALYZE on one of two databases makes the table sqlite_stat1, which was taken for
a user's table, so no changeset could be created any more.
---
 geodiff/src/drivers/sqlitedriver.cpp | 4 ++--
 geodiff/src/drivers/sqliteutils.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 4145682..6bd6db7 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -207,8 +207,8 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
     // table handled by triggers rtree_*_geometry_*
     if ( startsWith( tableName, "rtree_" ) )
       continue;
-    // internal table for AUTOINCREMENT
-    if ( tableName == "sqlite_sequence" )
+    // internal tables of SQLite (for AUTOINCREMENT, statistics from ANALYZE)
+    if ( startsWith( tableName, "sqlite_" ) )
       continue;
 
     tableNames.push_back( tableName );
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index 1e093b6..3822aa4 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -384,8 +384,8 @@ void sqliteTables( std::shared_ptr<Sqlite3Db> db,
     // table handled by triggers rtree_*_geometry_*
     if ( startsWith( tableName, "rtree_" ) )
       continue;
-    // internal table for AUTOINCREMENT
-    if ( tableName == "sqlite_sequence" )
+    // internal tables of SQLite (for AUTOINCREMENT, statistics from ANALYZE)
+    if ( startsWith( tableName, "sqlite_" ) )
       continue;
 
     tableNames.push_back( tableName );
-- 
2.43.0


From 802dfb62a874542a722e9fd1b80484cb5659e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 54/54] fix: do not override the conflict clauses in GeoPackage
 triggers when applying changes

---
 geodiff/src/drivers/sqlitedriver.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 6bd6db7..6dda806 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -590,18 +590,28 @@ void SqliteDriver::createChangeset( ChangesetWriter &writer )
 
 }
 
-static std::string sqlForInsert( const std::string &tableName, const TableSchema &tbl )
+// Returns the clause that overrides ON CONFLICT clauses of the table: they could drop other rows or end
+// our transaction. It would also override OR REPLACE in the body of triggers that the statement fires
+// (GeoPackage triggers updating the spatial index need that), so it is left out for tables with triggers.
+static std::string sqlOrAbort( std::shared_ptr<Sqlite3Db> db, const std::string &tableName )
+{
+  Sqlite3Stmt stmt;
+  stmt.prepare( db, "SELECT count(*) FROM sqlite_master WHERE type = 'trigger' AND lower(tbl_name) = lower('%q')", tableName.c_str() );
+  if ( sqlite3_step( stmt.get() ) != SQLITE_ROW )
+    throw GeoDiffException( "Failed to get triggers of table " + tableName );
+  return sqlite3_column_int( stmt.get(), 0 ) == 0 ? "OR ABORT " : "";
+}
+
+static std::string sqlForInsert( const std::string &tableName, const TableSchema &tbl, const std::string &orAbort )
 {
   /*
    * For a table defined like this: CREATE TABLE x(a, b, c, d, PRIMARY KEY(a, c));
    *
    * INSERT OR ABORT INTO x (a, b, c, d) VALUES (?, ?, ?, ?)
-   *
-   * (ABORT overrides ON CONFLICT clauses of the table: they could drop other rows or end our transaction)
    */
 
   std::string sql;
-  sql += sqlitePrintf( "INSERT OR ABORT INTO \"%w\" (", tableName.c_str() );
+  sql += sqlitePrintf( "INSERT %sINTO \"%w\" (", orAbort.c_str(), tableName.c_str() );
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
   {
     if ( i > 0 )
@@ -619,7 +629,7 @@ static std::string sqlForInsert( const std::string &tableName, const TableSchema
   return sql;
 }
 
-static std::string sqlForUpdate( const std::string &tableName, const TableSchema &tbl )
+static std::string sqlForUpdate( const std::string &tableName, const TableSchema &tbl, const std::string &orAbort )
 {
   /*
   ** For a table defined like this: CREATE TABLE x(a, b, c, d, PRIMARY KEY(a, c));
@@ -641,7 +651,7 @@ static std::string sqlForUpdate( const std::string &tableName, const TableSchema
   */
 
   std::string sql;
-  sql += sqlitePrintf( "UPDATE OR ABORT \"%w\" SET ", tableName.c_str() );
+  sql += sqlitePrintf( "UPDATE %s\"%w\" SET ", orAbort.c_str(), tableName.c_str() );
 
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
   {
@@ -762,11 +772,13 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
           throw GeoDiffException( "Mismatch of primary keys in table: " + tableName );
       }
 
+      std::string orAbort = sqlOrAbort( mDb, tableName );
+
       stmtInsert.reset( new Sqlite3Stmt );
-      stmtInsert->prepare( mDb, sqlForInsert( tableName, tbl ) );
+      stmtInsert->prepare( mDb, sqlForInsert( tableName, tbl, orAbort ) );
 
       stmtUpdate.reset( new Sqlite3Stmt );
-      stmtUpdate->prepare( mDb, sqlForUpdate( tableName, tbl ) );
+      stmtUpdate->prepare( mDb, sqlForUpdate( tableName, tbl, orAbort ) );
 
       stmtDelete.reset( new Sqlite3Stmt );
       stmtDelete->prepare( mDb, sqlForDelete( tableName, tbl ) );
-- 
2.43.0

