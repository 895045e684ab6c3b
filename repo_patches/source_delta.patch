From b9563f10463033ba5495dc65700206ea4d0ade4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 01/34] fix: do not take a short read for the last block of a
 stream

---
 crates/volaris-crypto/src/stream.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-crypto/src/stream.rs b/crates/volaris-crypto/src/stream.rs
index 99005ef..3dbf86f 100644
--- a/crates/volaris-crypto/src/stream.rs
+++ b/crates/volaris-crypto/src/stream.rs
@@ -60,6 +60,22 @@ pub enum DecryptionStreams {
     DeoxysII256(Box<DecryptorLE31<DeoxysII256>>),
 }
 
+/// Fills the buffer from the reader, and returns how many bytes were read
+///
+/// This is less than the buffer's length only if the end of the input was reached, a short read is not taken for the end.
+fn read_block(reader: &mut impl Read, buffer: &mut [u8]) -> std::io::Result<usize> {
+    let mut read_count = 0;
+    while read_count < buffer.len() {
+        match reader.read(&mut buffer[read_count..]) {
+            Ok(0) => break,
+            Ok(n) => read_count += n,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(read_count)
+}
+
 impl EncryptionStreams {
     /// This method can be used to quickly create an `EncryptionStreams` object
     ///
@@ -192,8 +208,7 @@ impl EncryptionStreams {
 
         let mut read_buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
         loop {
-            let read_count = reader
-                .read(&mut read_buffer)
+            let read_count = read_block(reader, &mut read_buffer)
                 .context("Unable to read from the reader")?;
             if read_count == BLOCK_SIZE {
                 // aad is just empty bytes normally
@@ -360,7 +375,7 @@ impl DecryptionStreams {
 
         let mut buffer = vec![0u8; BLOCK_SIZE + 16].into_boxed_slice();
         loop {
-            let read_count = reader.read(&mut buffer)?;
+            let read_count = read_block(reader, &mut buffer)?;
             if read_count == (BLOCK_SIZE + 16) {
                 let payload = Payload {
                     aad,
-- 
2.43.0


From 75ae21f752213bac3b467739616e5a6a428d02e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 02/34] fix: hash the whole input when reads are short

---
 crates/volaris-tools/src/hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/hash.rs b/crates/volaris-tools/src/hash.rs
index f171eca..8426f61 100644
--- a/crates/volaris-tools/src/hash.rs
+++ b/crates/volaris-tools/src/hash.rs
@@ -45,7 +45,7 @@ pub fn execute<R: Read + Seek>(mut hasher: impl Hasher, req: Request<R>) -> Resu
             .read(&mut buffer)
             .map_err(|_| Error::ReadData)?;
         hasher.write(&buffer[..read_count]);
-        if read_count != BLOCK_SIZE {
+        if read_count == 0 {
             break;
         }
     }
-- 
2.43.0


From cd0294574f03953fb37838d909a43e9c3917e8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 03/34] fix: pack the whole file when reads are short

---
 crates/volaris-tools/src/pack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index e07791e..94a002c 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -94,7 +94,7 @@ where
                     zip_writer
                         .write_all(&buffer[..read_count])
                         .map_err(|_| Error::WriteData)?;
-                    if read_count != BLOCK_SIZE {
+                    if read_count == 0 {
                         break;
                     }
                 }
-- 
2.43.0


From 3d90d6be2fd5d04e56367e837b78c28c697013af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 04/34] fix: write the whole header when writes are short

---
 crates/volaris-crypto/src/header.rs | 2 +-
 crates/volaris-tools/src/encrypt.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 5c78a05..956940f 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -715,7 +715,7 @@ impl Header {
     pub fn write(&self, writer: &mut impl Write) -> Result<()> {
         let header_bytes = self.serialize()?;
         writer
-            .write(&header_bytes)
+            .write_all(&header_bytes)
             .context("Unable to write header")?;
 
         Ok(())
diff --git a/crates/volaris-tools/src/encrypt.rs b/crates/volaris-tools/src/encrypt.rs
index 1a3d1b9..368c1a3 100644
--- a/crates/volaris-tools/src/encrypt.rs
+++ b/crates/volaris-tools/src/encrypt.rs
@@ -120,7 +120,7 @@ where
         None => {
             req.writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
         Some(header_writer) => {
@@ -131,7 +131,7 @@ where
 
             header_writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
     }
-- 
2.43.0


From a87650460be5b5c8c25e1ce6d099af8234d7371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 05/34] fix: refuse to restore a header over a file that is too
 short for it

---
 crates/volaris-tools/src/header/restore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/header/restore.rs b/crates/volaris-tools/src/header/restore.rs
index d07a747..ad87338 100644
--- a/crates/volaris-tools/src/header/restore.rs
+++ b/crates/volaris-tools/src/header/restore.rs
@@ -32,7 +32,7 @@ where
     ];
     req.writer
         .borrow_mut()
-        .read(&mut header_bytes)
+        .read_exact(&mut header_bytes)
         .map_err(|_| Error::Read)?;
 
     if !header_bytes.into_iter().all(|b| b == 0) {
-- 
2.43.0


From 2fba1c4a746c467d5aede1b6ea8ba3dcdcf47165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 06/34] fix: do not index past the word list when generating a
 passphrase

---
 crates/volaris-crypto/src/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-crypto/src/key.rs b/crates/volaris-crypto/src/key.rs
index d921319..ec04b29 100644
--- a/crates/volaris-crypto/src/key.rs
+++ b/crates/volaris-crypto/src/key.rs
@@ -209,7 +209,7 @@ pub fn generate_passphrase(total_words: &i32) -> Protected<String> {
     let mut passphrase = String::new();
 
     for i in 0..*total_words {
-        let index = StdRng::from_entropy().gen_range(0..=words.len());
+        let index = StdRng::from_entropy().gen_range(0..words.len());
         let word = words[index];
         passphrase.push_str(word);
         if i < total_words - 1 {
-- 
2.43.0


From 1c3e6cc64a37714de0e2cc6db76f9b0a2d99c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 07/34] fix: write random data in the random overwrite passes

---
 crates/volaris-tools/src/overwrite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/overwrite.rs b/crates/volaris-tools/src/overwrite.rs
index 126cbb8..6725ea0 100644
--- a/crates/volaris-tools/src/overwrite.rs
+++ b/crates/volaris-tools/src/overwrite.rs
@@ -45,7 +45,7 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
         blocks.push(req.buf_capacity % BLOCK_SIZE);
 
         for block_size in blocks.into_iter().take_while(|bs| *bs > 0) {
-            let mut block_buf = Vec::with_capacity(block_size);
+            let mut block_buf = vec![0u8; block_size];
             rand::thread_rng().fill_bytes(&mut block_buf);
             writer
                 .write_all(&block_buf)
-- 
2.43.0


From c61348c81f63bf7f828768bd776468a95f8b9509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 08/34] fix: read the keyslots after an unused one from their
 own place

---
 crates/volaris-crypto/src/header.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 956940f..c167b1b 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -399,6 +399,10 @@ impl Header {
                         .context("Unable to read keyslot identifier from header")?;
 
                     if identifier[..1] != [0xDF] {
+                        // skip the rest of the unused keyslot
+                        cursor
+                            .seek(std::io::SeekFrom::Current(94))
+                            .context("Unable to seek past an unused keyslot")?;
                         continue;
                     }
 
-- 
2.43.0


From cf634aa1361aae1ae3eeb6ad88b51bb38acc4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 09/34] fix: decrypt a body shorter than its detached header

---
 crates/volaris-tools/src/decrypt.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-tools/src/decrypt.rs b/crates/volaris-tools/src/decrypt.rs
index be3c6d7..f03a882 100644
--- a/crates/volaris-tools/src/decrypt.rs
+++ b/crates/volaris-tools/src/decrypt.rs
@@ -67,19 +67,21 @@ where
             #[allow(clippy::cast_possible_truncation)]
             let mut header_bytes = vec![0u8; header.get_size() as usize];
 
-            req.reader
+            let has_empty_header = req
+                .reader
                 .borrow_mut()
                 .read_exact(&mut header_bytes)
+                .map(|()| header_bytes.into_iter().all(|b| b == 0))
                 .or_else(|e| {
                     if e.kind() == std::io::ErrorKind::UnexpectedEof {
-                        Ok(())
+                        Ok(false)
                     } else {
                         Err(e)
                     }
                 })
                 .map_err(|_| Error::ReadEncryptedData)?;
 
-            if !header_bytes.into_iter().all(|b| b == 0) {
+            if !has_empty_header {
                 // And return the cursor position to the start if it wasn't found
                 req.reader
                     .borrow_mut()
-- 
2.43.0


From a89de58f34c8330c1304bc4d526bd2611294437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 10/34] fix: refuse header versions and hashing algorithms that
 could not be decrypted

---
 crates/volaris-tools/src/encrypt.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/encrypt.rs b/crates/volaris-tools/src/encrypt.rs
index 368c1a3..0e96ce3 100644
--- a/crates/volaris-tools/src/encrypt.rs
+++ b/crates/volaris-tools/src/encrypt.rs
@@ -4,7 +4,7 @@ use std::cell::RefCell;
 use std::io::{Read, Seek, Write};
 
 use corecrypto::cipher::Ciphers;
-use corecrypto::header::{HashingAlgorithm, Header, HeaderType, Keyslot};
+use corecrypto::header::{HashingAlgorithm, Header, HeaderType, HeaderVersion, Keyslot};
 use corecrypto::primitives::{Mode, ENCRYPTED_MASTER_KEY_LEN};
 use corecrypto::protected::Protected;
 use corecrypto::stream::EncryptionStreams;
@@ -21,6 +21,7 @@ pub enum Error {
     InitializeStreams,
     InitializeChiphers,
     CreateAad,
+    UnsupportedHeader,
 }
 
 impl std::fmt::Display for Error {
@@ -34,6 +35,9 @@ impl std::fmt::Display for Error {
             Error::InitializeStreams => f.write_str("Cannot initialize streams"),
             Error::InitializeChiphers => f.write_str("Cannot initialize chiphers"),
             Error::CreateAad => f.write_str("Cannot create AAD"),
+            Error::UnsupportedHeader => {
+                f.write_str("The header version cannot be used with this hashing algorithm")
+            }
         }
     }
 }
@@ -59,6 +63,12 @@ where
     R: Read + Seek,
     W: Write + Seek,
 {
+    // V4 headers do not store the hashing algorithm, and older ones have no keyslots at all
+    match (&req.header_type.version, req.hashing_algorithm) {
+        (HeaderVersion::V5, _) | (HeaderVersion::V4, HashingAlgorithm::Blake3Balloon(4)) => {}
+        _ => return Err(Error::UnsupportedHeader),
+    }
+
     // 1. generate salt
     let salt = gen_salt();
 
-- 
2.43.0


From 794eb073ba3185040464a9b757cb433f0a7d513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 11/34] fix: overwrite the content of an erased file instead of
 truncating it first

---
 crates/volaris-tools/src/erase.rs   |  2 +-
 crates/volaris-tools/src/storage.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/erase.rs b/crates/volaris-tools/src/erase.rs
index 8dd6404..b906499 100644
--- a/crates/volaris-tools/src/erase.rs
+++ b/crates/volaris-tools/src/erase.rs
@@ -37,7 +37,7 @@ where
     RW: Read + Write + Seek,
     P: AsRef<Path>,
 {
-    let file = stor.write_file(req.path).map_err(|_| Error::OpenFile)?;
+    let file = stor.overwrite_file(req.path).map_err(|_| Error::OpenFile)?;
     let buf_capacity = stor.file_len(&file).map_err(|_| Error::OpenFile)?;
 
     crate::overwrite::execute(crate::overwrite::Request {
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index 5a71a5f..481205a 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -67,6 +67,10 @@ where
     fn create_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn write_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
+    /// Opens an existing file for writing, and keeps its content so that it can be overwritten in place.
+    fn overwrite_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error> {
+        self.write_file(path)
+    }
     fn flush_file(&self, file: &Entry<RW>) -> Result<(), Error>;
     fn file_len(&self, file: &Entry<RW>) -> Result<usize, Error>;
     fn remove_file(&self, file: Entry<RW>) -> Result<(), Error>;
@@ -124,6 +128,20 @@ impl Storage<fs::File> for FileStorage {
         }))
     }
 
+    fn overwrite_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<fs::File>, Error> {
+        let path = path.as_ref().to_path_buf();
+        let file = fs::File::options()
+            .write(true)
+            .read(true)
+            .open(&path)
+            .map_err(|_| Error::OpenFile(FileMode::Write))?;
+
+        Ok(Entry::File(FileData {
+            path,
+            stream: RefCell::new(file),
+        }))
+    }
+
     fn flush_file(&self, file: &Entry<fs::File>) -> Result<(), Error> {
         file.try_writer()?
             .borrow_mut()
-- 
2.43.0


From 60a6cce7e22e271056d2842b5377eadba14004c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 12/34] fix: do not erase files outside the directory through
 symbolic links

---
 crates/volaris-tools/src/erase_dir.rs | 3 ++-
 crates/volaris-tools/src/storage.rs   | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/erase_dir.rs b/crates/volaris-tools/src/erase_dir.rs
index b8f3e3b..a3ad051 100644
--- a/crates/volaris-tools/src/erase_dir.rs
+++ b/crates/volaris-tools/src/erase_dir.rs
@@ -51,7 +51,8 @@ where
     #[allow(clippy::needless_collect)] // 🚫 we have to collect in order to propertly join threads!
     let handlers = files
         .into_iter()
-        .filter(|f| !f.is_dir())
+        // a link is removed together with the directory, but its target is not ours to erase
+        .filter(|f| !f.is_dir() && !stor.is_symlink(f.path()))
         .map(|f| {
             let file_path = f.path().to_path_buf();
             let stor = stor.clone();
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index 481205a..af31dcb 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -75,6 +75,9 @@ where
     fn file_len(&self, file: &Entry<RW>) -> Result<usize, Error>;
     fn remove_file(&self, file: Entry<RW>) -> Result<(), Error>;
     fn remove_dir_all(&self, file: Entry<RW>) -> Result<(), Error>;
+    fn is_symlink<P: AsRef<Path>>(&self, _path: P) -> bool {
+        false
+    }
     // TODO(pleshevskiy): return iterator instead of Vector
     fn read_dir(&self, file: &Entry<RW>) -> Result<Vec<Entry<RW>>, Error>;
 }
@@ -176,6 +179,10 @@ impl Storage<fs::File> for FileStorage {
         fs::remove_dir_all(file.path()).map_err(|_| Error::RemoveDir)
     }
 
+    fn is_symlink<P: AsRef<Path>>(&self, path: P) -> bool {
+        path.as_ref().is_symlink()
+    }
+
     fn read_dir(&self, file: &Entry<fs::File>) -> Result<Vec<Entry<fs::File>>, Error> {
         if !file.is_dir() {
             return Err(Error::FileAccess);
-- 
2.43.0


From e930cd3362e4983e5d9ac4faf08d0f3baf2342e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 13/34] fix: keep temporary plaintext files private to the user

---
 crates/volaris-tools/src/storage.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index af31dcb..cd07dd9 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -60,6 +60,11 @@ where
         let file_name = Alphanumeric.sample_string(&mut rand::thread_rng(), 16);
         path.push(file_name);
 
+        self.create_private_file(path)
+    }
+
+    /// Creates a new file that only the current user may access, if the storage knows about users.
+    fn create_private_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error> {
         self.create_file(path)
     }
 
@@ -103,6 +108,24 @@ impl Storage<fs::File> for FileStorage {
         }))
     }
 
+    #[cfg(unix)]
+    fn create_private_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<fs::File>, Error> {
+        use std::os::unix::fs::OpenOptionsExt;
+
+        let path = path.as_ref().to_path_buf();
+        let file = fs::File::options()
+            .create_new(true)
+            .read(true)
+            .write(true)
+            .mode(0o600)
+            .open(&path)
+            .map_err(|_| Error::CreateFile)?;
+        Ok(Entry::File(FileData {
+            path,
+            stream: RefCell::new(file),
+        }))
+    }
+
     fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<fs::File>, Error> {
         let path = path.as_ref().to_path_buf();
         if path.is_dir() {
-- 
2.43.0


From aa30afe28ef3aff56cfdf5fa1554df74c27d3d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 14/34] fix: report a failed flush of the packed archive

---
 crates/volaris-tools/src/pack.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 94a002c..387607b 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -104,7 +104,11 @@ where
         })?;
 
         // 3. Close archive and switch writer to reader.
-        zip_writer.finish().map_err(|_| Error::FinishArchive)?;
+        zip_writer
+            .finish()
+            .map_err(|_| Error::FinishArchive)?
+            .flush()
+            .map_err(|_| Error::FinishArchive)?;
     }
 
     let buf_capacity = stor.file_len(&tmp_file).map_err(|_| Error::FinishArchive)?;
-- 
2.43.0


From 946f7abbdd59debf55dd3e49b0775240068b41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 15/34] fix: report archive entries that cannot be read instead
 of dropping them

---
 crates/volaris-tools/src/unpack.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 009ae31..bfa4389 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -89,7 +89,10 @@ pub fn execute<RW: Read + Write + Seek>(
         // 4. prepare phase
         let entities = (0..archive.len())
             .filter_map(|i| {
-                let zip_file = archive.by_index(i).ok()?;
+                let zip_file = match archive.by_index(i) {
+                    Ok(zip_file) => zip_file,
+                    Err(_) => return Some(Err(Error::OpenArchivedFile)),
+                };
                 let mut full_path = output_dir.clone();
 
                 // Prevent zip slip attack
@@ -98,9 +101,11 @@ pub fn execute<RW: Read + Write + Seek>(
                 zip_file.enclosed_name().map(|path| {
                     full_path.push(path);
 
-                    (full_path, i, zip_file.is_dir())
+                    Ok((full_path, i, zip_file.is_dir()))
                 })
             })
+            .collect::<Result<Vec<_>, _>>()?
+            .into_iter()
             .filter(|(full_path, ..)| {
                 if let Some(on_zip_file) = req.on_zip_file.as_ref() {
                     on_zip_file(full_path.clone())
-- 
2.43.0


From 71d3e357452088686ae4dc213e4e27f966a5c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 16/34] fix: pack entries under names that unpacking accepts

---
 crates/volaris-tools/src/pack.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 387607b..e9495a8 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -6,6 +6,7 @@
 
 use std::cell::RefCell;
 use std::io::{BufWriter, Read, Seek, Write};
+use std::path::{Component, Path};
 use std::sync::Arc;
 
 use corecrypto::header::{HashingAlgorithm, HeaderType};
@@ -56,6 +57,18 @@ where
     pub hashing_algorithm: HashingAlgorithm,
 }
 
+/// Unpacking drops entries with absolute paths or parent components, so such components are not stored.
+fn archive_name(path: &Path) -> Result<String, Error> {
+    let names = path
+        .components()
+        .filter_map(|component| match component {
+            Component::Normal(name) => Some(name.to_str().ok_or(Error::ReadData)),
+            _ => None,
+        })
+        .collect::<Result<Vec<_>, _>>()?;
+    Ok(names.join("/"))
+}
+
 pub fn execute<RW>(stor: Arc<impl Storage<RW>>, req: Request<'_, RW>) -> Result<(), Error>
 where
     RW: Read + Write + Seek,
@@ -77,10 +90,14 @@ where
 
         // 2. Add files to the archive.
         req.compress_files.into_iter().try_for_each(|f| {
-            let file_path = f.path().to_str().ok_or(Error::ReadData)?;
+            let file_path = archive_name(f.path())?;
+            if file_path.is_empty() {
+                return Ok(());
+            }
+
             if f.is_dir() {
                 zip_writer
-                    .add_directory(file_path, options)
+                    .add_directory(format!("{file_path}/"), options)
                     .map_err(|_| Error::AddDirToArchive)?;
             } else {
                 zip_writer
-- 
2.43.0


From dc29e50daf8432c0fc9315e112059e92ea679b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 17/34] fix: do not unpack a file as a directory because its
 name ends with a backslash

---
 crates/volaris-tools/src/unpack.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index bfa4389..f6ca258 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -101,7 +101,7 @@ pub fn execute<RW: Read + Write + Seek>(
                 zip_file.enclosed_name().map(|path| {
                     full_path.push(path);
 
-                    Ok((full_path, i, zip_file.is_dir()))
+                    Ok((full_path, i, zip_file.name().ends_with('/')))
                 })
             })
             .collect::<Result<Vec<_>, _>>()?
-- 
2.43.0


From a3407b690c5be78d1e175a3c2cfd9006c0c1c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 18/34] fix: erase the temporary plaintext archive when packing
 or unpacking fails

---
 crates/volaris-tools/src/pack.rs   | 45 +++++++++++++++++++-----------
 crates/volaris-tools/src/unpack.rs | 38 +++++++++++++++----------
 2 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index e9495a8..3aa8643 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -14,7 +14,7 @@ use corecrypto::primitives::BLOCK_SIZE;
 use corecrypto::protected::Protected;
 use zip::write::FileOptions;
 
-use crate::storage::Storage;
+use crate::storage::{Entry, Storage};
 
 #[derive(Debug)]
 pub enum Error {
@@ -75,6 +75,31 @@ where
 {
     // 1. Create zip archive.
     let tmp_file = stor.create_temp_file().map_err(|_| Error::CreateArchive)?;
+
+    let pack_res = pack_to_temp_file(req, &tmp_file);
+
+    // 5. Finally erase zip archive with zeros, also if packing failed.
+    if let (Ok(buf_capacity), Ok(writer)) = (stor.file_len(&tmp_file), tmp_file.try_writer()) {
+        crate::overwrite::execute(crate::overwrite::Request {
+            buf_capacity,
+            writer,
+            passes: 2,
+        })
+        .ok();
+    }
+
+    stor.remove_file(tmp_file).ok();
+
+    pack_res
+}
+
+fn pack_to_temp_file<RW>(
+    req: Request<'_, RW>,
+    tmp_file: &Entry<RW>,
+) -> Result<(), Error>
+where
+    RW: Read + Write + Seek,
+{
     {
         let mut tmp_writer = tmp_file
             .try_writer()
@@ -128,10 +153,8 @@ where
             .map_err(|_| Error::FinishArchive)?;
     }
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(|_| Error::FinishArchive)?;
-
     // 4. Encrypt zip archive
-    let encrypt_res = crate::encrypt::execute(crate::encrypt::Request {
+    crate::encrypt::execute(crate::encrypt::Request {
         reader: tmp_file.try_reader().map_err(|_| Error::FinishArchive)?,
         writer: req.writer,
         header_writer: req.header_writer,
@@ -139,19 +162,7 @@ where
         header_type: req.header_type,
         hashing_algorithm: req.hashing_algorithm,
     })
-    .map_err(Error::Encrypt);
-
-    // 5. Finally erase zip archive with zeros.
-    crate::overwrite::execute(crate::overwrite::Request {
-        buf_capacity,
-        writer: tmp_file.try_writer().map_err(|_| Error::FinishArchive)?,
-        passes: 2,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
-    encrypt_res
+    .map_err(Error::Encrypt)
 }
 
 #[cfg(test)]
diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index f6ca258..8309f96 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -7,7 +7,7 @@ use std::io::{Read, Seek, Write};
 use std::path::PathBuf;
 use std::sync::Arc;
 
-use crate::storage::{self, Storage};
+use crate::storage::{self, Entry, Storage};
 use crate::{decrypt, overwrite};
 use corecrypto::protected::Protected;
 
@@ -59,6 +59,28 @@ pub fn execute<RW: Read + Write + Seek>(
     // 1. Create temp zip archive.
     let tmp_file = stor.create_temp_file().map_err(Error::Storage)?;
 
+    let unpack_res = unpack_from_temp_file(&stor, req, &tmp_file);
+
+    // 7. Finally eraze temp zip archive with zeros, also if unpacking failed.
+    if let (Ok(buf_capacity), Ok(writer)) = (stor.file_len(&tmp_file), tmp_file.try_writer()) {
+        overwrite::execute(overwrite::Request {
+            buf_capacity,
+            writer,
+            passes: 1,
+        })
+        .ok();
+    }
+
+    stor.remove_file(tmp_file).ok();
+
+    unpack_res
+}
+
+fn unpack_from_temp_file<RW: Read + Write + Seek>(
+    stor: &Arc<impl Storage<RW> + 'static>,
+    req: Request<'_, RW>,
+    tmp_file: &Entry<RW>,
+) -> Result<(), Error> {
     // 2. Decrypt input file to temp zip archive.
     decrypt::execute(decrypt::Request {
         header_reader: req.header_reader,
@@ -71,8 +93,6 @@ pub fn execute<RW: Read + Write + Seek>(
     })
     .map_err(Error::Decrypt)?;
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(Error::Storage)?;
-
     // 3. Recover files from temp archive.
     {
         let mut reader = tmp_file
@@ -157,18 +177,6 @@ pub fn execute<RW: Read + Write + Seek>(
             })?;
     }
 
-    // 7. Finally eraze temp zip archive with zeros.
-    overwrite::execute(overwrite::Request {
-        buf_capacity,
-        writer: tmp_file
-            .try_writer()
-            .expect("We sure that file in write mode"),
-        passes: 1,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
     Ok(())
 }
 
-- 
2.43.0


From a22060c2590a0566e63e1d613e8a7168c59ee2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 19/34] fix: only erase, autogenerate and force when the switch
 was given, and let flags be flags

---
 crates/volaris-cli/src/cli.rs               | 35 +++++++++++++++++----
 crates/volaris-cli/src/global/parameters.rs | 23 ++++++++------
 crates/volaris-cli/src/global/states.rs     |  2 +-
 crates/volaris-cli/src/subcommands.rs       |  4 +--
 4 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/crates/volaris-cli/src/cli.rs b/crates/volaris-cli/src/cli.rs
index 5e54c05..a13cb5f 100644
--- a/crates/volaris-cli/src/cli.rs
+++ b/crates/volaris-cli/src/cli.rs
@@ -1,4 +1,4 @@
-use clap::{Arg, Command};
+use clap::{Arg, ArgAction, Command};
 
 pub mod prompt;
 
@@ -30,27 +30,31 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("erase")
                 .long("erase")
                 .value_name("# of passes")
+                .num_args(0..=1)
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
                 .short('H')
                 .long("hash")
+                .action(ArgAction::SetTrue)
                 .help("Return a BLAKE3 hash of the encrypted file"),
         )
         .arg(
             Arg::new("argon")
                 .long("argon")
+                .action(ArgAction::SetTrue)
                 .help("Use argon2id for password hashing"),
         )
         .arg(
             Arg::new("autogenerate")
                 .long("auto")
                 .value_name("# of words")
+                .num_args(0..=1)
                 .require_equals(true)
-                .default_value("7")
+                .default_missing_value("7")
                 .help("Autogenerate a passphrase (default is 7 words)")
                 .conflicts_with("keyfile"),
         )
@@ -64,11 +68,13 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("force")
                 .short('f')
                 .long("force")
+                .action(ArgAction::SetTrue)
                 .help("Force all actions"),
         )
         .arg(
             Arg::new("aes")
                 .long("aes")
+                .action(ArgAction::SetTrue)
                 .help("Use AES-256-GCM for encryption"),
         );
 
@@ -104,20 +110,23 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("erase")
                 .long("erase")
                 .value_name("# of passes")
+                .num_args(0..=1)
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
                 .short('H')
                 .long("hash")
+                .action(ArgAction::SetTrue)
                 .help("Return a BLAKE3 hash of the encrypted file"),
         )
         .arg(
             Arg::new("force")
                 .short('f')
                 .long("force")
+                .action(ArgAction::SetTrue)
                 .help("Force all actions"),
         );
 
@@ -142,6 +151,7 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 )
                 .arg(
@@ -184,25 +194,29 @@ pub fn get_matches() -> clap::ArgMatches {
                 .arg(
                     Arg::new("erase")
                         .long("erase")
+                        .action(ArgAction::SetTrue)
                         .help("Securely erase every file from the source directory, before deleting the directory"),
                 )
                 .arg(
                     Arg::new("argon")
                         .long("argon")
+                        .action(ArgAction::SetTrue)
                         .help("Use argon2id for password hashing"),
                 )
                 .arg(
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
+                        .action(ArgAction::SetTrue)
                         .help("Show a detailed output"),
                 )
                 .arg(
                     Arg::new("autogenerate")
                         .long("auto")
                         .value_name("# of words")
+                        .num_args(0..=1)
                         .require_equals(true)
-                        .default_value("7")
+                        .default_missing_value("7")
                         .help("Autogenerate a passphrase (default is 7 words)")
                         .conflicts_with("keyfile"),
                 )
@@ -216,12 +230,14 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("zstd")
                         .short('z')
                         .long("zstd")
+                        .action(ArgAction::SetTrue)
                         .help("Use ZSTD compression"),
                 )
                 .arg(
                     Arg::new("recursive")
                         .short('r')
                         .long("recursive")
+                        .action(ArgAction::SetTrue)
                         .help("Index files and folders within other folders (index recursively)"),
                 )
                 .arg(
@@ -235,17 +251,20 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
+                        .action(ArgAction::SetTrue)
                         .help("Return a BLAKE3 hash of the encrypted file"),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 )
                 .arg(
                     Arg::new("aes")
                         .long("aes")
+                        .action(ArgAction::SetTrue)
                         .help("Use AES-256-GCM for encryption"),
                 ),
         )
@@ -282,26 +301,30 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("erase")
                         .long("erase")
                         .value_name("# of passes")
+                        .num_args(0..=1)
                         .require_equals(true)
                         .help("Securely erase the input file once complete (default is 1 pass)")
-                        .default_value("1"),
+                        .default_missing_value("1"),
                 )
                 .arg(
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
+                        .action(ArgAction::SetTrue)
                         .help("Show a detailed output"),
                 )
                 .arg(
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
+                        .action(ArgAction::SetTrue)
                         .help("Return a BLAKE3 hash of the encrypted file"),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 ),
         )
diff --git a/crates/volaris-cli/src/global/parameters.rs b/crates/volaris-cli/src/global/parameters.rs
index 9600692..7483c16 100644
--- a/crates/volaris-cli/src/global/parameters.rs
+++ b/crates/volaris-cli/src/global/parameters.rs
@@ -27,10 +27,15 @@ pub fn get_param(name: &str, sub_matches: &ArgMatches) -> Result<String> {
     Ok(value)
 }
 
+// not every subcommand has every flag, a flag the subcommand doesn't have is never set
+pub fn get_flag(name: &str, sub_matches: &ArgMatches) -> bool {
+    matches!(sub_matches.try_get_one::<bool>(name), Ok(Some(true)))
+}
+
 pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if get_flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -73,7 +78,7 @@ pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
 }
 
 pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
-    if sub_matches.contains_id("argon") {
+    if get_flag("argon", sub_matches) {
         HashingAlgorithm::Argon2id(ARGON2ID_LATEST)
     } else {
         HashingAlgorithm::Blake3Balloon(BLAKE3BALLOON_LATEST)
@@ -81,7 +86,7 @@ pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
 }
 
 pub fn algorithm(sub_matches: &ArgMatches) -> Algorithm {
-    if sub_matches.contains_id("aes") {
+    if get_flag("aes", sub_matches) {
         Algorithm::Aes256Gcm
     } else {
         Algorithm::XChaCha20Poly1305
@@ -113,7 +118,7 @@ pub fn erase_params(sub_matches: &ArgMatches) -> Result<(i32, ForceMode)> {
 pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams)> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if get_flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -140,25 +145,25 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
         hashing_algorithm,
     };
 
-    let print_mode = if sub_matches.contains_id("verbose") {
+    let print_mode = if get_flag("verbose", sub_matches) {
         PrintMode::Verbose
     } else {
         PrintMode::Quiet
     };
 
-    let dir_mode = if sub_matches.contains_id("recursive") {
+    let dir_mode = if get_flag("recursive", sub_matches) {
         DirectoryMode::Recursive
     } else {
         DirectoryMode::Singular
     };
 
-    let erase_source = if sub_matches.contains_id("erase") {
+    let erase_source = if get_flag("erase", sub_matches) {
         EraseSourceDir::Erase
     } else {
         EraseSourceDir::Retain
     };
 
-    let compression = if sub_matches.contains_id("zstd") {
+    let compression = if get_flag("zstd", sub_matches) {
         Compression::Zstd
     } else {
         Compression::None
@@ -175,7 +180,7 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
 }
 
 pub fn forcemode(sub_matches: &ArgMatches) -> ForceMode {
-    if sub_matches.contains_id("force") {
+    if get_flag("force", sub_matches) {
         ForceMode::Force
     } else {
         ForceMode::Prompt
diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index 48b5d92..8a2b1a4 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -134,7 +134,7 @@ impl Key {
             )
         } else if std::env::var("VOLARIS_KEY").is_ok() && params.env {
             Key::Env
-        } else if sub_matches.contains_id("autogenerate") && params.autogenerate {
+        } else if matches!(sub_matches.try_contains_id("autogenerate"), Ok(true)) && params.autogenerate {
             let result = sub_matches
                 .get_one::<String>("autogenerate")
                 .context("No amount of words specified")?
diff --git a/crates/volaris-cli/src/subcommands.rs b/crates/volaris-cli/src/subcommands.rs
index 57f3431..5de5b90 100644
--- a/crates/volaris-cli/src/subcommands.rs
+++ b/crates/volaris-cli/src/subcommands.rs
@@ -6,7 +6,7 @@ use clap::ArgMatches;
 
 use crate::global::{
     parameters::{
-        algorithm, erase_params, forcemode, get_param, get_params, key_manipulation_params,
+        algorithm, erase_params, forcemode, get_flag, get_param, get_params, key_manipulation_params,
         pack_params, parameter_handler,
     },
     states::{Key, KeyParams},
@@ -69,7 +69,7 @@ pub fn unpack(sub_matches: &ArgMatches) -> Result<()> {
 
     let crypto_params = parameter_handler(sub_matches)?;
 
-    let print_mode = if sub_matches.get_flag("verbose") {
+    let print_mode = if get_flag("verbose", sub_matches) {
         PrintMode::Verbose
     } else {
         PrintMode::Quiet
-- 
2.43.0


From dcc909775b8d2bfee86a48eda6c34ab34a9cbe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:12 +0000
Subject: [PATCH 20/34] fix: refuse input, output and header paths that are the
 same file

---
 crates/volaris-cli/src/subcommands.rs         | 45 ++++++++++++++++++-
 crates/volaris-cli/src/subcommands/decrypt.rs |  6 +--
 crates/volaris-cli/src/subcommands/encrypt.rs |  6 +--
 crates/volaris-cli/src/subcommands/pack.rs    | 10 +++--
 crates/volaris-cli/src/subcommands/unpack.rs  |  2 +
 5 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands.rs b/crates/volaris-cli/src/subcommands.rs
index 5de5b90..25716da 100644
--- a/crates/volaris-cli/src/subcommands.rs
+++ b/crates/volaris-cli/src/subcommands.rs
@@ -1,5 +1,6 @@
 use anyhow::Result;
 use clap::ArgMatches;
+use std::path::{Path, PathBuf};
 
 // This is called from main.rs
 // It gets params and sends them to the appropriate functions
@@ -9,7 +10,7 @@ use crate::global::{
         algorithm, erase_params, forcemode, get_flag, get_param, get_params, key_manipulation_params,
         pack_params, parameter_handler,
     },
-    states::{Key, KeyParams},
+    states::{HeaderLocation, Key, KeyParams},
 };
 
 pub mod decrypt;
@@ -21,6 +22,48 @@ pub mod key;
 pub mod pack;
 pub mod unpack;
 
+// the canonical path, also of a file that doesn't exist yet
+fn canonical_path(path: &Path) -> Option<PathBuf> {
+    path.canonicalize().ok().or_else(|| {
+        let parent = match path.parent()? {
+            parent if parent.as_os_str().is_empty() => Path::new("."),
+            parent => parent,
+        };
+        Some(parent.canonicalize().ok()?.join(path.file_name()?))
+    })
+}
+
+// whether both names stand for the same file, however they are spelled or linked
+fn is_same_file(a: &str, b: &str) -> bool {
+    #[cfg(unix)]
+    if let (Ok(a), Ok(b)) = (std::fs::metadata(a), std::fs::metadata(b)) {
+        use std::os::unix::fs::MetadataExt;
+        return a.dev() == b.dev() && a.ino() == b.ino();
+    }
+
+    let (a, b) = (Path::new(a), Path::new(b));
+    a == b || matches!((canonical_path(a), canonical_path(b)), (Some(a), Some(b)) if a == b)
+}
+
+// the input, the output and the detached header have to be different files
+fn check_distinct_files(input: &str, output: &str, header: &HeaderLocation) -> Result<()> {
+    if is_same_file(input, output) {
+        return Err(anyhow::anyhow!(
+            "Input and output files cannot have the same name."
+        ));
+    }
+
+    if let HeaderLocation::Detached(header) = header {
+        if is_same_file(input, header) || is_same_file(output, header) {
+            return Err(anyhow::anyhow!(
+                "The header file cannot be the same as the input or output file."
+            ));
+        }
+    }
+
+    Ok(())
+}
+
 pub fn encrypt(sub_matches: &ArgMatches) -> Result<()> {
     let params = parameter_handler(sub_matches)?;
     let algorithm = algorithm(sub_matches);
diff --git a/crates/volaris-cli/src/subcommands/decrypt.rs b/crates/volaris-cli/src/subcommands/decrypt.rs
index 61c80ae..a6a9558 100644
--- a/crates/volaris-cli/src/subcommands/decrypt.rs
+++ b/crates/volaris-cli/src/subcommands/decrypt.rs
@@ -19,11 +19,7 @@ pub fn stream_mode(input: &str, output: &str, params: &CryptoParams) -> Result<(
     let stor = Arc::new(tools::storage::FileStorage);
 
     // 1. validate and prepare options
-    if input == output {
-        return Err(anyhow::anyhow!(
-            "Input and output files cannot have the same name."
-        ));
-    }
+    super::check_distinct_files(input, output, &params.header_location)?;
 
     if !overwrite_check(output, params.force)? {
         exit(0);
diff --git a/crates/volaris-cli/src/subcommands/encrypt.rs b/crates/volaris-cli/src/subcommands/encrypt.rs
index 87a0164..99a5a24 100644
--- a/crates/volaris-cli/src/subcommands/encrypt.rs
+++ b/crates/volaris-cli/src/subcommands/encrypt.rs
@@ -22,11 +22,7 @@ pub fn stream_mode(
     let stor = Arc::new(tools::storage::FileStorage);
 
     // 1. validate and prepare options
-    if input == output {
-        return Err(anyhow::anyhow!(
-            "Input and output files cannot have the same name."
-        ));
-    }
+    super::check_distinct_files(input, output, &params.header_location)?;
 
     if !overwrite_check(output, params.force)? {
         exit(0);
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index 594079b..9447645 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -36,10 +36,12 @@ pub fn execute(req: &Request) -> Result<()> {
     let stor = Arc::new(tools::storage::FileStorage);
 
     // 1. validate and prepare options
-    if req.input_file.iter().any(|f| f == req.output_file) {
-        return Err(anyhow::anyhow!(
-            "Input and output files cannot have the same name."
-        ));
+    for input in req.input_file {
+        super::check_distinct_files(
+            input,
+            req.output_file,
+            &req.crypto_params.header_location,
+        )?;
     }
 
     if req.input_file.iter().any(|f| PathBuf::from(f).is_file()) {
diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index f308530..0698625 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -26,6 +26,8 @@ pub fn unpack(
     // TODO: It is necessary to raise it to a higher level
     let stor = Arc::new(tools::storage::FileStorage);
 
+    super::check_distinct_files(input, output, &params.header_location)?;
+
     let input_file = stor.read_file(input)?;
     let header_file = match &params.header_location {
         HeaderLocation::Embedded => None,
-- 
2.43.0


From 8ff6ea37fb6cd31488b7ec28efbf74086d2c929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 21/34] fix: refuse to pack into a directory that is erased
 afterwards

---
 crates/volaris-cli/src/subcommands.rs      |  8 ++++++++
 crates/volaris-cli/src/subcommands/pack.rs | 14 ++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/crates/volaris-cli/src/subcommands.rs b/crates/volaris-cli/src/subcommands.rs
index 25716da..f5cf87e 100644
--- a/crates/volaris-cli/src/subcommands.rs
+++ b/crates/volaris-cli/src/subcommands.rs
@@ -45,6 +45,14 @@ fn is_same_file(a: &str, b: &str) -> bool {
     a == b || matches!((canonical_path(a), canonical_path(b)), (Some(a), Some(b)) if a == b)
 }
 
+// whether the file is, or would be created, somewhere beneath the directory
+fn is_inside_dir(file: &str, dir: &str) -> bool {
+    match (canonical_path(Path::new(file)), canonical_path(Path::new(dir))) {
+        (Some(file), Some(dir)) => file.starts_with(dir),
+        _ => false,
+    }
+}
+
 // the input, the output and the detached header have to be different files
 fn check_distinct_files(input: &str, output: &str, header: &HeaderLocation) -> Result<()> {
     if is_same_file(input, output) {
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index 9447645..e01263b 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -44,6 +44,20 @@ pub fn execute(req: &Request) -> Result<()> {
         )?;
     }
 
+    if req.pack_params.erase_source == EraseSourceDir::Erase {
+        let mut outputs = vec![req.output_file];
+        if let HeaderLocation::Detached(path) = &req.crypto_params.header_location {
+            outputs.push(path);
+        }
+        for input in req.input_file {
+            if outputs.iter().any(|o| super::is_inside_dir(o, input)) {
+                return Err(anyhow::anyhow!(
+                    "The output cannot be inside of the directory that will be erased."
+                ));
+            }
+        }
+    }
+
     if req.input_file.iter().any(|f| PathBuf::from(f).is_file()) {
         return Err(anyhow::anyhow!("Input path cannot be a file."));
     }
-- 
2.43.0


From 9da6be4c463f1613585787aa662e06c38b2f9e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 22/34] fix: do not crash while unpacking because of an entry's
 name or an unreadable answer

---
 crates/volaris-cli/src/subcommands/unpack.rs | 27 +++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index 0698625..a5f061c 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -1,4 +1,6 @@
 use crate::{cli::prompt::get_answer, global::states::HashMode};
+use std::cell::Cell;
+use std::rc::Rc;
 use std::sync::Arc;
 
 use anyhow::Result;
@@ -36,6 +38,9 @@ pub fn unpack(
 
     let raw_key = params.key.get_secret(&PasswordState::Direct)?;
 
+    let unreadable_answer = Rc::new(Cell::new(None));
+    let answer_error = unreadable_answer.clone();
+
     tools::unpack::execute(
         stor,
         tools::unpack::Request {
@@ -48,18 +53,22 @@ pub fn unpack(
             on_zip_file: Some(Box::new(move |file_path| {
                 let file_name = file_path
                     .file_name()
-                    .expect("Unable to convert file name to OsStr")
-                    .to_str()
-                    .expect("Unable to convert file name's OsStr to &str")
+                    .unwrap_or(file_path.as_os_str())
+                    .to_string_lossy()
                     .to_string();
 
-                if std::fs::metadata(file_path).is_ok() {
-                    let answer = get_answer(
+                if std::fs::metadata(&file_path).is_ok() {
+                    let answer = match get_answer(
                         &format!("{} already exists, would you like to overwrite?", file_name),
                         true,
                         params.force,
-                    )
-                    .expect("Unable to read answer");
+                    ) {
+                        Ok(answer) => answer,
+                        Err(err) => {
+                            answer_error.set(Some(err));
+                            false
+                        }
+                    };
                     if !answer {
                         warn!("Skipping {}", file_name);
                         return false;
@@ -75,6 +84,10 @@ pub fn unpack(
         },
     )?;
 
+    if let Some(err) = unreadable_answer.take() {
+        return Err(err);
+    }
+
     if params.hash_mode == HashMode::CalculateHash {
         super::hashing::hash_stream(&[input.to_string()])?;
     }
-- 
2.43.0


From 04474b258c65d48a4d0da833a20ffae535da5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 23/34] fix: erase the unpacked file when asked to

---
 crates/volaris-cli/src/subcommands/unpack.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index a5f061c..d88f3bc 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -1,4 +1,7 @@
-use crate::{cli::prompt::get_answer, global::states::HashMode};
+use crate::{
+    cli::prompt::get_answer,
+    global::states::{EraseMode, HashMode},
+};
 use std::cell::Cell;
 use std::rc::Rc;
 use std::sync::Arc;
@@ -92,5 +95,9 @@ pub fn unpack(
         super::hashing::hash_stream(&[input.to_string()])?;
     }
 
+    if let EraseMode::EraseFile(passes) = params.erase {
+        super::erase::secure_erase(input, passes, params.force)?;
+    }
+
     Ok(())
 }
-- 
2.43.0


From 0858d129968194fb2872b52b8beeff493701ad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 24/34] fix: do not follow a link that cannot be told from a
 file when erasing a directory

---
 crates/volaris-tools/src/erase_dir.rs | 13 ++++++++++---
 crates/volaris-tools/src/storage.rs   | 10 ++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/volaris-tools/src/erase_dir.rs b/crates/volaris-tools/src/erase_dir.rs
index a3ad051..ef751b7 100644
--- a/crates/volaris-tools/src/erase_dir.rs
+++ b/crates/volaris-tools/src/erase_dir.rs
@@ -46,13 +46,20 @@ where
 
     let files = stor
         .read_dir(&req.entry)
-        .map_err(|_| Error::ReadDirEntries)?;
+        .map_err(|_| Error::ReadDirEntries)?
+        .into_iter()
+        .filter(|f| !f.is_dir())
+        // a link is removed together with the directory, but its target is not ours to erase
+        .filter_map(|f| match stor.is_symlink(f.path()) {
+            Ok(true) => None,
+            Ok(false) => Some(Ok(f)),
+            Err(_) => Some(Err(Error::ReadDirEntries)),
+        })
+        .collect::<Result<Vec<_>, _>>()?;
 
     #[allow(clippy::needless_collect)] // 🚫 we have to collect in order to propertly join threads!
     let handlers = files
         .into_iter()
-        // a link is removed together with the directory, but its target is not ours to erase
-        .filter(|f| !f.is_dir() && !stor.is_symlink(f.path()))
         .map(|f| {
             let file_path = f.path().to_path_buf();
             let stor = stor.clone();
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index cd07dd9..88dbd94 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -80,8 +80,8 @@ where
     fn file_len(&self, file: &Entry<RW>) -> Result<usize, Error>;
     fn remove_file(&self, file: Entry<RW>) -> Result<(), Error>;
     fn remove_dir_all(&self, file: Entry<RW>) -> Result<(), Error>;
-    fn is_symlink<P: AsRef<Path>>(&self, _path: P) -> bool {
-        false
+    fn is_symlink<P: AsRef<Path>>(&self, _path: P) -> Result<bool, Error> {
+        Ok(false)
     }
     // TODO(pleshevskiy): return iterator instead of Vector
     fn read_dir(&self, file: &Entry<RW>) -> Result<Vec<Entry<RW>>, Error>;
@@ -202,8 +202,10 @@ impl Storage<fs::File> for FileStorage {
         fs::remove_dir_all(file.path()).map_err(|_| Error::RemoveDir)
     }
 
-    fn is_symlink<P: AsRef<Path>>(&self, path: P) -> bool {
-        path.as_ref().is_symlink()
+    fn is_symlink<P: AsRef<Path>>(&self, path: P) -> Result<bool, Error> {
+        fs::symlink_metadata(path)
+            .map(|meta| meta.file_type().is_symlink())
+            .map_err(|_| Error::FileAccess)
     }
 
     fn read_dir(&self, file: &Entry<fs::File>) -> Result<Vec<Entry<fs::File>>, Error> {
-- 
2.43.0


From 0621457e51ec9a029825392fe64e510f28147296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 25/34] fix: see through links to files that do not exist yet
 when comparing paths

---
 crates/volaris-cli/src/subcommands.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands.rs b/crates/volaris-cli/src/subcommands.rs
index f5cf87e..fefc431 100644
--- a/crates/volaris-cli/src/subcommands.rs
+++ b/crates/volaris-cli/src/subcommands.rs
@@ -24,13 +24,28 @@ pub mod unpack;
 
 // the canonical path, also of a file that doesn't exist yet
 fn canonical_path(path: &Path) -> Option<PathBuf> {
-    path.canonicalize().ok().or_else(|| {
+    let mut path = path.to_path_buf();
+
+    // a link to a file that doesn't exist yet can't be canonicalized, but the file would be created
+    // where it leads to (a chain longer than this can't be opened either)
+    for _ in 0..40 {
+        if let Ok(canonical) = path.canonicalize() {
+            return Some(canonical);
+        }
+
         let parent = match path.parent()? {
             parent if parent.as_os_str().is_empty() => Path::new("."),
             parent => parent,
         };
-        Some(parent.canonicalize().ok()?.join(path.file_name()?))
-    })
+        let full_path = parent.canonicalize().ok()?.join(path.file_name()?);
+
+        match full_path.read_link() {
+            Ok(target) => path = full_path.parent()?.join(target),
+            Err(_) => return Some(full_path),
+        }
+    }
+
+    None
 }
 
 // whether both names stand for the same file, however they are spelled or linked
-- 
2.43.0


From 5bf19f8ef16afd39849400accf77667499c3e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 26/34] fix: keep the packed file when some of its files were
 skipped

---
 crates/volaris-cli/src/subcommands/unpack.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index d88f3bc..d2bcb06 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -43,6 +43,8 @@ pub fn unpack(
 
     let unreadable_answer = Rc::new(Cell::new(None));
     let answer_error = unreadable_answer.clone();
+    let any_skipped = Rc::new(Cell::new(false));
+    let skipped = any_skipped.clone();
 
     tools::unpack::execute(
         stor,
@@ -74,6 +76,7 @@ pub fn unpack(
                     };
                     if !answer {
                         warn!("Skipping {}", file_name);
+                        skipped.set(true);
                         return false;
                     }
                 }
@@ -96,6 +99,12 @@ pub fn unpack(
     }
 
     if let EraseMode::EraseFile(passes) = params.erase {
+        // what was skipped exists nowhere else
+        if any_skipped.get() {
+            warn!("Not erasing {} because not everything was unpacked", input);
+            return Ok(());
+        }
+
         super::erase::secure_erase(input, passes, params.force)?;
     }
 
-- 
2.43.0


From 1994649111d5469da43c84df41398904308d30fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:23 +0000
Subject: [PATCH 27/34] fix: limit the number of threads that create
 directories while unpacking

An archive with some ten thousand directories made unpacking panic, because
one thread was started for each of them at once.
---
 crates/volaris-tools/src/unpack.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 8309f96..3a8f318 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -11,6 +11,8 @@ use crate::storage::{self, Entry, Storage};
 use crate::{decrypt, overwrite};
 use corecrypto::protected::Protected;
 
+const MAX_THREADS: usize = 64;
+
 #[derive(Debug)]
 pub enum Error {
     WriteData,
@@ -141,22 +143,30 @@ fn unpack_from_temp_file<RW: Read + Write + Seek>(
         }
 
         // 5. create dirs
-        #[allow(clippy::needless_collect)]
-        let create_dirs_jobs = entities
+        let dirs = entities
             .iter()
             .filter(|(_, _, is_dir)| *is_dir)
             .map(|(fp, ..)| fp)
             .chain([&output_dir])
-            .map(|full_path| {
-                let stor = stor.clone();
-                let full_path = full_path.clone();
-                std::thread::spawn(move || stor.create_dir_all(full_path).map_err(Error::Storage))
-            })
             .collect::<Vec<_>>();
 
-        create_dirs_jobs
-            .into_iter()
-            .try_for_each(|th| th.join().unwrap())?;
+        // The archive decides how many directories there are, so the number of threads must be limited.
+        dirs.chunks(MAX_THREADS).try_for_each(|dirs| {
+            let create_dirs_jobs = dirs
+                .iter()
+                .map(|full_path| {
+                    let stor = stor.clone();
+                    let full_path = (*full_path).clone();
+                    std::thread::spawn(move || {
+                        stor.create_dir_all(full_path).map_err(Error::Storage)
+                    })
+                })
+                .collect::<Vec<_>>();
+
+            create_dirs_jobs
+                .into_iter()
+                .try_for_each(|th| th.join().unwrap())
+        })?;
 
         // 6. create files
         entities
-- 
2.43.0


From 4af35768e170e14820e77afcb5168de421de1071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 28/34] fix: ask about the header file before touching the
 output

Declining to overwrite an existing detached header exited after the output had been
created, or truncated when it existed.
---
 crates/volaris-cli/src/subcommands/encrypt.rs | 11 +++++++----
 crates/volaris-cli/src/subcommands/pack.rs    | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/encrypt.rs b/crates/volaris-cli/src/subcommands/encrypt.rs
index 99a5a24..e75c1da 100644
--- a/crates/volaris-cli/src/subcommands/encrypt.rs
+++ b/crates/volaris-cli/src/subcommands/encrypt.rs
@@ -28,6 +28,13 @@ pub fn stream_mode(
         exit(0);
     }
 
+    // asked before anything is created or truncated, so that declining changes nothing
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        if !overwrite_check(path, params.force)? {
+            exit(0);
+        }
+    }
+
     let input_file = stor.read_file(input)?;
     let raw_key = params.key.get_secret(&PasswordState::Validate)?;
     let output_file = stor
@@ -37,10 +44,6 @@ pub fn stream_mode(
     let header_file = match &params.header_location {
         HeaderLocation::Embedded => None,
         HeaderLocation::Detached(path) => {
-            if !overwrite_check(path, params.force)? {
-                exit(0);
-            }
-
             Some(stor.create_file(path).or_else(|_| stor.write_file(path))?)
         }
     };
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index e01263b..c114a33 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -66,6 +66,13 @@ pub fn execute(req: &Request) -> Result<()> {
         exit(0);
     }
 
+    // asked before anything is created or truncated, so that declining changes nothing
+    if let HeaderLocation::Detached(path) = &req.crypto_params.header_location {
+        if !overwrite_check(path, req.crypto_params.force)? {
+            exit(0);
+        }
+    }
+
     let input_files = req
         .input_file
         .iter()
@@ -79,10 +86,6 @@ pub fn execute(req: &Request) -> Result<()> {
     let header_file = match &req.crypto_params.header_location {
         HeaderLocation::Embedded => None,
         HeaderLocation::Detached(path) => {
-            if !overwrite_check(path, req.crypto_params.force)? {
-                exit(0);
-            }
-
             Some(stor.create_file(path).or_else(|_| stor.write_file(path))?)
         }
     };
-- 
2.43.0


From b58e1aed954fab85fd82b5560a4cb132fc62ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 29/34] fix: overwrite in blocks instead of holding a buffer as
 long as the file

---
 crates/volaris-tools/src/overwrite.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/volaris-tools/src/overwrite.rs b/crates/volaris-tools/src/overwrite.rs
index 6725ea0..dcc7dcf 100644
--- a/crates/volaris-tools/src/overwrite.rs
+++ b/crates/volaris-tools/src/overwrite.rs
@@ -5,7 +5,7 @@
 use rand::RngCore;
 use std::cell::RefCell;
 use std::fmt;
-use std::io::{Seek, Write};
+use std::io::{Read, Seek, Write};
 
 const BLOCK_SIZE: usize = 512;
 
@@ -41,10 +41,11 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
     for _ in 0..req.passes {
         writer.rewind().map_err(|_| Error::ResetCursorPosition)?;
 
-        let mut blocks = [BLOCK_SIZE].repeat(req.buf_capacity / BLOCK_SIZE);
-        blocks.push(req.buf_capacity % BLOCK_SIZE);
+        let blocks = std::iter::repeat(BLOCK_SIZE)
+            .take(req.buf_capacity / BLOCK_SIZE)
+            .chain([req.buf_capacity % BLOCK_SIZE]);
 
-        for block_size in blocks.into_iter().take_while(|bs| *bs > 0) {
+        for block_size in blocks.take_while(|bs| *bs > 0) {
             let mut block_buf = vec![0u8; block_size];
             rand::thread_rng().fill_bytes(&mut block_buf);
             writer
@@ -56,9 +57,11 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
     }
 
     writer.rewind().map_err(|_| Error::ResetCursorPosition)?;
-    writer
-        .write_all(&[0].repeat(req.buf_capacity))
-        .map_err(|_| Error::OverwriteWithZeros)?;
+    std::io::copy(
+        &mut std::io::repeat(0).take(req.buf_capacity as u64),
+        &mut *writer,
+    )
+    .map_err(|_| Error::OverwriteWithZeros)?;
     writer.flush().map_err(|_| Error::FlushFile)
 }
 
-- 
2.43.0


From 47891e04e811188807c639e3dde365bfb5a5cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 30/34] fix: do not unpack over the packed file or its header

---
 crates/volaris-cli/src/subcommands.rs        |  5 ++--
 crates/volaris-cli/src/subcommands/unpack.rs | 25 ++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands.rs b/crates/volaris-cli/src/subcommands.rs
index fefc431..411890b 100644
--- a/crates/volaris-cli/src/subcommands.rs
+++ b/crates/volaris-cli/src/subcommands.rs
@@ -49,14 +49,15 @@ fn canonical_path(path: &Path) -> Option<PathBuf> {
 }
 
 // whether both names stand for the same file, however they are spelled or linked
-fn is_same_file(a: &str, b: &str) -> bool {
+fn is_same_file(a: impl AsRef<Path>, b: impl AsRef<Path>) -> bool {
+    let (a, b) = (a.as_ref(), b.as_ref());
+
     #[cfg(unix)]
     if let (Ok(a), Ok(b)) = (std::fs::metadata(a), std::fs::metadata(b)) {
         use std::os::unix::fs::MetadataExt;
         return a.dev() == b.dev() && a.ino() == b.ino();
     }
 
-    let (a, b) = (Path::new(a), Path::new(b));
     a == b || matches!((canonical_path(a), canonical_path(b)), (Some(a), Some(b)) if a == b)
 }
 
diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index d2bcb06..7d9188d 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -41,8 +41,14 @@ pub fn unpack(
 
     let raw_key = params.key.get_secret(&PasswordState::Direct)?;
 
-    let unreadable_answer = Rc::new(Cell::new(None));
-    let answer_error = unreadable_answer.clone();
+    let refused = Rc::new(Cell::new(None));
+    let refusal = refused.clone();
+    // what is being read must not be overwritten by what is unpacked from it
+    let mut own_files = vec![input.to_string()];
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        own_files.push(path.to_string());
+    }
+
     let any_skipped = Rc::new(Cell::new(false));
     let skipped = any_skipped.clone();
 
@@ -62,6 +68,17 @@ pub fn unpack(
                     .to_string_lossy()
                     .to_string();
 
+                if own_files
+                    .iter()
+                    .any(|own| super::is_same_file(own, &file_path))
+                {
+                    refusal.set(Some(anyhow::anyhow!(
+                        "{} would overwrite the file that is being unpacked.",
+                        file_name
+                    )));
+                    return false;
+                }
+
                 if std::fs::metadata(&file_path).is_ok() {
                     let answer = match get_answer(
                         &format!("{} already exists, would you like to overwrite?", file_name),
@@ -70,7 +87,7 @@ pub fn unpack(
                     ) {
                         Ok(answer) => answer,
                         Err(err) => {
-                            answer_error.set(Some(err));
+                            refusal.set(Some(err));
                             false
                         }
                     };
@@ -90,7 +107,7 @@ pub fn unpack(
         },
     )?;
 
-    if let Some(err) = unreadable_answer.take() {
+    if let Some(err) = refused.take() {
         return Err(err);
     }
 
-- 
2.43.0


From c76b886d8d85f3d608cc5ab18c498c88868b47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:36 +0000
Subject: [PATCH 31/34] fix: leave the output and header files out of the
 archive

---
 crates/volaris-cli/src/subcommands/pack.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index c114a33..9ad8c86 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -103,7 +103,17 @@ pub fn execute(req: &Request) -> Result<()> {
                 vec![Ok(file)]
             }
         })
-        .collect::<Result<Vec<_>, _>>()?;
+        .collect::<Result<Vec<_>, _>>()?
+        .into_iter()
+        // the files that are being written are not a part of what is packed
+        .filter(|file| {
+            !super::is_same_file(req.output_file, file.path())
+                && !matches!(
+                    &req.crypto_params.header_location,
+                    HeaderLocation::Detached(path) if super::is_same_file(path, file.path())
+                )
+        })
+        .collect::<Vec<_>>();
 
     let compression_method = match req.pack_params.compression {
         Compression::None => zip::CompressionMethod::Stored,
-- 
2.43.0


From 412be14cf22aa407f60b7d4a76dadb209973ee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 32/34] fix: do not take an all-zero master key for a wrong key

---
 crates/volaris-tools/src/key.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/volaris-tools/src/key.rs b/crates/volaris-tools/src/key.rs
index d59ac7d..a22ab36 100644
--- a/crates/volaris-tools/src/key.rs
+++ b/crates/volaris-tools/src/key.rs
@@ -51,8 +51,7 @@ pub fn decrypt_v5_master_key_with_index(
     raw_key_old: Protected<Vec<u8>>,
     algorithm: &Algorithm,
 ) -> Result<(Protected<[u8; MASTER_KEY_LEN]>, usize), Error> {
-    let mut index = 0;
-    let mut master_key = [0u8; MASTER_KEY_LEN];
+    let mut found = None;
 
     // we need the index, so we can't use `decrypt_master_key()`
     for (i, keyslot) in keyslots.iter().enumerate() {
@@ -68,12 +67,13 @@ pub fn decrypt_v5_master_key_with_index(
             continue;
         }
 
+        let mut master_key = [0u8; MASTER_KEY_LEN];
         let mut master_key_decrypted = master_key_result.unwrap();
         let len = MASTER_KEY_LEN.min(master_key_decrypted.len());
         master_key[..len].copy_from_slice(&master_key_decrypted[..len]);
         master_key_decrypted.zeroize();
 
-        index = i;
+        found = Some((Protected::new(master_key), i));
 
         drop(cipher);
         break;
@@ -81,11 +81,7 @@ pub fn decrypt_v5_master_key_with_index(
 
     drop(raw_key_old);
 
-    if master_key == [0u8; MASTER_KEY_LEN] {
-        return Err(Error::IncorrectKey);
-    }
-
-    Ok((Protected::new(master_key), index))
+    found.ok_or(Error::IncorrectKey)
 }
 
 impl std::error::Error for Error {}
-- 
2.43.0


From 3233fc1bca3a5d13aff1a36db2f33465dd241dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 33/34] fix: strip and restore a header where it is, not at the
 start of the stream

---
 crates/volaris-tools/src/header/restore.rs | 8 +++++++-
 crates/volaris-tools/src/header/strip.rs   | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/volaris-tools/src/header/restore.rs b/crates/volaris-tools/src/header/restore.rs
index ad87338..eb6cbf8 100644
--- a/crates/volaris-tools/src/header/restore.rs
+++ b/crates/volaris-tools/src/header/restore.rs
@@ -30,6 +30,11 @@ where
             .try_into()
             .map_err(|_| Error::HeaderSizeParse)?
     ];
+    let start = req
+        .writer
+        .borrow_mut()
+        .stream_position()
+        .map_err(|_| Error::Rewind)?;
     req.writer
         .borrow_mut()
         .read_exact(&mut header_bytes)
@@ -39,9 +44,10 @@ where
         return Err(Error::UnsupportedRestore);
     }
 
+    // back to the bytes that were found to be zeros
     req.writer
         .borrow_mut()
-        .rewind()
+        .seek(std::io::SeekFrom::Start(start))
         .map_err(|_| Error::Rewind)?;
 
     header
diff --git a/crates/volaris-tools/src/header/strip.rs b/crates/volaris-tools/src/header/strip.rs
index 606c7dd..754e4e0 100644
--- a/crates/volaris-tools/src/header/strip.rs
+++ b/crates/volaris-tools/src/header/strip.rs
@@ -20,9 +20,15 @@ where
     let (header, _) =
         Header::deserialize(&mut *req.handle.borrow_mut()).map_err(|_| Error::InvalidFile)?;
 
+    let header_size: i64 = header
+        .get_size()
+        .try_into()
+        .map_err(|_| Error::HeaderSizeParse)?;
+
+    // back to where the header starts, which isn't necessarily the start of the stream
     req.handle
         .borrow_mut()
-        .rewind()
+        .seek(std::io::SeekFrom::Current(-header_size))
         .map_err(|_| Error::Rewind)?;
 
     let zeroes = vec![
-- 
2.43.0


From 226a6c7e0eeb9629f9a5bd7b324c282c9ca39320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:08 +0000
Subject: [PATCH 34/34] fix: look for the body where it starts, not at the
 start of the stream

---
 crates/volaris-tools/src/decrypt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/decrypt.rs b/crates/volaris-tools/src/decrypt.rs
index f03a882..6db0c95 100644
--- a/crates/volaris-tools/src/decrypt.rs
+++ b/crates/volaris-tools/src/decrypt.rs
@@ -63,6 +63,12 @@ where
             let (header, aad) = Header::deserialize(&mut *header_reader.borrow_mut())
                 .map_err(|_| Error::DeserializeHeader)?;
 
+            let start = req
+                .reader
+                .borrow_mut()
+                .stream_position()
+                .map_err(|_| Error::RewindDataReader)?;
+
             // Try reading an empty header from the content.
             #[allow(clippy::cast_possible_truncation)]
             let mut header_bytes = vec![0u8; header.get_size() as usize];
@@ -85,7 +91,7 @@ where
                 // And return the cursor position to the start if it wasn't found
                 req.reader
                     .borrow_mut()
-                    .rewind()
+                    .seek(std::io::SeekFrom::Start(start))
                     .map_err(|_| Error::RewindDataReader)?;
             }
 
-- 
2.43.0

