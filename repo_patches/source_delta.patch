From cf84db266c77e70cb66bf91c8597f331e2f95f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:37 +0000
Subject: [PATCH 01/15] fix: footer digest is the one of an empty text when
 progress is printed

Progress::done() asks the writer for the hash before finishing it. Asking
resets the running digest, so the footer written afterwards was the digest
of nothing. Hash a copy of the running digest instead.
---
 src/v1/threaded_writer.rs | 3 ++-
 src/v1/writer.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 61b479e..1828bda 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -157,7 +157,8 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     }
     fn get_hash(&mut self) -> Result<Self::TotalHash, Error> {
         self.wait_queue()?;
-        Ok(self.file.digest.total_hash())
+        // hash a copy, so that asking for it twice gives the same answer
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 484a78d..53e7848 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -77,7 +77,8 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
         Ok(())
     }
     fn get_hash(&mut self) -> Result<H::Output, Error> {
-        Ok(self.file.digest.total_hash())
+        // hash a copy, so that asking for it twice gives the same answer
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
-- 
2.43.0


From 775f8348c339e19a4fdf2b99ed8189dd62bc6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 02/15] fix: Emitter writes an incomplete blake3 footer

The footer line had no newline, and was written with a single write() whose
count was ignored, so a short write truncated it silently.
---
 src/v1/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/emitter.rs b/src/v1/emitter.rs
index a111027..e3561cd 100644
--- a/src/v1/emitter.rs
+++ b/src/v1/emitter.rs
@@ -157,7 +157,7 @@ impl HashTrait for blake3::Hasher {
         self.update(data);
     }
     fn write_hash(&mut self, out: &mut dyn Write) -> io::Result<()> {
-        out.write(self.finalize().to_hex().as_str().as_bytes()).map(|_| ())
+        writeln!(out, "{:x}", Hexlified(self.finalize().as_bytes()))
     }
 }
 
-- 
2.43.0


From 75e517e99373687ba734a1e7ef48071d3c6e13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 03/15] fix: Emitter::start_dir does not panic on a relative
 path as documented

It wrote a line that no parser takes for a directory.
---
 src/v1/emitter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v1/emitter.rs b/src/v1/emitter.rs
index e3561cd..684c373 100644
--- a/src/v1/emitter.rs
+++ b/src/v1/emitter.rs
@@ -78,6 +78,7 @@ impl<'a> Emitter<'a> {
     ///
     /// If directory is not absolute
     pub fn start_dir(&mut self, path: &Path) -> io::Result<()> {
+        assert!(path.is_absolute(), "Relative path");
         writeln!(self.out, "{}", Name(path))?;
         Ok(())
     }
-- 
2.43.0


From 074d7535a4e72b090cf94ff09430be1dfcf14db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 04/15] fix: Hashes::hash_file adds a hash of an empty block

For empty files and for files whose size is a multiple of the block size
there was one hash more than the format prescribes, and with a zero block
size it never returned.
---
 src/v1/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bd330cb..12487e6 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -435,6 +435,10 @@ impl Hashes {
         let mut size = 0;
         loop {
             let (bs, hash) = h.hash_and_size(&mut f, block_size)?;
+            if bs == 0 {
+                // end of file, there are no hashes of empty blocks
+                break;
+            }
             buf.extend(hash.result());
             size += bs;
             if bs < block_size {
-- 
2.43.0


From 69ccd4e1d5e7e9b39872151b89115c6a879eaf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 05/15] fix: parser panics on huge file sizes and on a zero
 block size

Adding the block size to the file size overflowed, dividing by a zero
block size panicked, and the space for hashes was reserved by the claimed
size of the file instead of by the length of the row.
---
 src/v1/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 12487e6..8d59301 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -295,9 +295,11 @@ impl Header {
                 },
                 Some(_) => {
                     match block_size_kv.next() {
-                        Some(v) => u64::from_str_radix(v, 10)
-                            .map_err(|_| ParseRowError::InvalidBlockSize(
-                                v.to_string()))?,
+                        Some(v) => match u64::from_str_radix(v, 10) {
+                            Ok(n) if n > 0 => n,
+                            _ => return Err(ParseRowError::InvalidBlockSize(
+                                v.to_string())),
+                        },
                         None => return Err(ParseRowError::MissingBlockSize),
                     }
                 },
@@ -525,7 +527,8 @@ impl Entry {
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-                let hashes_num = ((file_size + block_size - 1) / block_size) as usize;
+                let hashes_num = (file_size / block_size
+                    + (file_size % block_size > 0) as u64) as usize;
                 let (hashes_data, row) = parse_hashes(row, hash_type, hashes_num)?;
                 let hashes = Hashes::new(hashes_data, hash_type, block_size);
                 (Entry::File {
@@ -824,7 +827,9 @@ fn parse_hashes<'a>(data: &'a [u8], hash_type: HashType, hashes_num: usize)
     let hash_len = digest_len * 2;
 
     let mut i = 0;
-    let mut buf = Vec::with_capacity(hashes_num * digest_len);
+    // don't trust the number of hashes until they are found in the row
+    let max_num = data.len() / hash_len;
+    let mut buf = Vec::with_capacity(hashes_num.min(max_num) * digest_len);
     loop {
         if i == hashes_num {
             break;
-- 
2.43.0


From 9cbcb2c78fc8fd437f1fbdf17ac6250b0919ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 06/15] fix: advance and merge panic on a file without a
 directory or a name

A file row before any directory row has a relative path, and rows with
names like ".." or "/" have no file name. Comparing such entries panics,
so report them as invalid.
---
 src/v1/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 8d59301..2ddcc30 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -524,6 +524,10 @@ impl Entry {
             let row = &row[2..];
             let (path, row) = parse_path(row)?;
             let path = current_dir.join(&path);
+            if !path.is_absolute() || path.file_name().is_none() {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Invalid path of a file: {:?}", path)));
+            }
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-- 
2.43.0


From c038d5601d5c0bcb5d9327800477000845072dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 07/15] fix: parser accepts a symlink without a destination

---
 src/v1/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 2ddcc30..9feba57 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -542,6 +542,10 @@ impl Entry {
                     hashes: hashes },
                  row)
             } else if file_type == "s" {
+                if row.is_empty() {
+                    return Err(ParseRowError::InvalidLine(
+                        format!("Symlink has no destination")));
+                }
                 let (dest, row) = parse_path_buf(row)?;
                 (Entry::Link(path, dest), row)
             } else {
-- 
2.43.0


From 568689bde5ce64e45b2bfe5170d9c6bce568836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 08/15] fix: line numbers in parse errors are wrong after an
 advance

A row that advance() stopped at was counted again when it was parsed the
next time.
---
 src/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 9feba57..bb8129f 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -672,8 +672,8 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         if self.exhausted {
             return Ok(None);
         }
-        self.current_row_num += 1;
         if self.current_row.is_empty() {
+            self.current_row_num += 1;
             read_line(self.reader.by_ref(), &mut self.current_row)
                 .context(self.current_row_num)?;
         }
-- 
2.43.0


From 33e3e32ce9e2b9a0474aeea81938cb59c923d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 09/15] fix: advance reports the same bad row forever

---
 src/v1/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bb8129f..cbc15b5 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -732,7 +732,11 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                     }
                 },
                 Ok(None) => return None,
-                Err(e) => return Some(Err(e)),
+                Err(e) => {
+                    // same as in `next()`, don't report this row again
+                    self.current_row.clear();
+                    return Some(Err(e));
+                }
             }
         }
     }
-- 
2.43.0


From 76bb9ffa143391d224944850393431e935e7ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 10/15] fix: iteration over a truncated file never ends

---
 src/v1/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index cbc15b5..f0b5c72 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -674,8 +674,15 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         }
         if self.current_row.is_empty() {
             self.current_row_num += 1;
-            read_line(self.reader.by_ref(), &mut self.current_row)
-                .context(self.current_row_num)?;
+            if let Err(e) = read_line(self.reader.by_ref(),
+                &mut self.current_row)
+            {
+                if let ParseRowError::InvalidLine(..) = e {
+                    // end of file is reached, don't report it forever
+                    self.exhausted = true;
+                }
+                return Err(ErrorEnum::Parse(e, self.current_row_num));
+            }
         }
         let row = &self.current_row[..];
         let entry = Entry::parse(
-- 
2.43.0


From 7fb244e4eefbc4dfd5ffb68b85d9ef10c3f5291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 11/15] fix: interrupted read at the end of file is reported as
 an error

---
 src/v1/parser.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index f0b5c72..c57a5ae 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -469,11 +469,7 @@ impl Hashes {
                 return Ok(false);
             }
         }
-        let mut test_buf = [0; 1];
-        if f.read(&mut test_buf)? != 0 {
-            return Ok(false);
-        }
-        Ok(true)
+        Ok(!has_more_data(&mut f)?)
     }
 }
 
@@ -692,8 +688,7 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             None => {
                 let _footer = Footer::parse(row, self.hash_type)
                     .context(self.current_row_num)?;
-                let mut test_buf = [0; 1];
-                if self.reader.read(&mut test_buf)? != 0 {
+                if has_more_data(&mut *self.reader)? {
                     return Err(ErrorEnum::Parse(
                         ParseRowError::InvalidLine(
                             format!("Found extra lines after the footer")),
@@ -763,6 +758,12 @@ impl<'a, R: BufRead> Iterator for EntryIterator<'a, R> {
     }
 }
 
+/// Checks whether reader is not at the end of file, unlike a bare `read` it
+/// isn't confused by an interrupted system call
+fn has_more_data<R: io::Read>(reader: R) -> io::Result<bool> {
+    Ok(io::copy(&mut reader.take(1), &mut io::sink())? != 0)
+}
+
 fn read_line<R: BufRead>(reader: &mut R, mut buf: &mut Vec<u8>)
     -> Result<(), ParseRowError>
 {
-- 
2.43.0


From 25dfdd4fa6df1cd33f4ec4e441e7528d151c1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 12/15] fix: get_hash fails when reader returns less data than
 asked

---
 src/read.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index c993da0..aa11f4e 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -19,7 +19,7 @@ fn hex_to_digit(v: u8) -> Option<u8> {
 pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     let einval = io::ErrorKind::InvalidData;
     let mut signature = [0u8; 32];
-    f.read(&mut signature)?;
+    f.read_exact(&mut signature)?;
     if &signature[..16] != b"DIRSIGNATURE.v1 " {
         return Err(einval.into());
     }
@@ -32,9 +32,7 @@ pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     f.seek(SeekFrom::End(- (nbytes as i64)))?;
     let mut buf = [0u8; 100];
     assert!(buf.len() >= nbytes);
-    if f.read(&mut buf)? != nbytes {
-        return Err(io::ErrorKind::UnexpectedEof.into());
-    }
+    f.read_exact(&mut buf[..nbytes])?;
     if buf[0] != b'\n' || buf[nbytes-1] != b'\n' {
         return Err(einval.into());
     }
-- 
2.43.0


From e4799fdc5510ab6b4e519cb32fe5eb166adee0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 13/15] fix: error writing the footer is reported as a read
 error

---
 src/v1/threaded_writer.rs | 2 +-
 src/v1/writer.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 1828bda..77dc920 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -163,7 +163,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 53e7848..c3385ae 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -83,7 +83,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
-- 
2.43.0


From 21f51b381826b6f529052fe5c1240e76067778cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 14/15] fix: scan succeeds when buffered output can't be
 written

---
 src/v1/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v1/mod.rs b/src/v1/mod.rs
index 6392f8a..d7a58fa 100644
--- a/src/v1/mod.rs
+++ b/src/v1/mod.rs
@@ -37,7 +37,9 @@ use crate::{ScannerConfig, HashTypeEnum};
 pub fn scan<F: io::Write>(config: &ScannerConfig, out: &mut F)
     -> Result<(), Error>
 {
-    add_hash(config, out)
+    add_hash(config, out)?;
+    // an error of a buffered writer must not be lost
+    out.flush().map_err(Error::WriteError)
 }
 
 fn add_progress<W: Writer>(config: &ScannerConfig, out: W)
-- 
2.43.0


From 12bbe9a478ab12e5bfa7dc9293b0581cb8ff3fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 15/15] fix: queue_size option is ignored

---
 src/v1/mod.rs             | 2 +-
 src/v1/threaded_writer.rs | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v1/mod.rs b/src/v1/mod.rs
index d7a58fa..6ffaed9 100644
--- a/src/v1/mod.rs
+++ b/src/v1/mod.rs
@@ -68,7 +68,7 @@ fn add_threads<O, H: Hash>(config: &ScannerConfig, hash: H, out: &mut O)
 {
     if config.threads > 1 {
         add_progress(config, threaded_writer::ThreadedWriter::new(
-            config.threads,
+            config.threads, config.queue_size,
             out, hash, config.block_size)?)
     } else {
         add_progress(config, SyncWriter::new(out, hash, config.block_size)?)
diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 77dc920..209b712 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -38,9 +38,11 @@ pub struct ThreadedWriter<F, H: Hash> {
 }
 
 impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
-    pub fn new(threads: usize, mut f: F, hash: H, block_size: u64)
+    pub fn new(threads: usize, queue_size: Option<usize>,
+        mut f: F, hash: H, block_size: u64)
         -> Result<ThreadedWriter<F, H>, Error>
     {
+        let queue_limit = queue_size.unwrap_or(threads*16);
         writeln!(&mut f,
             "{}.{} {} block_size={}",
             MAGIC,
@@ -52,8 +54,8 @@ impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
             file: HashWriter { file: f, digest: hash.clone() },
             block_size: block_size,
             hash: hash,
-            queue_limit: threads*16,
-            queue: VecDeque::with_capacity(threads*16),
+            queue_limit: queue_limit,
+            queue: VecDeque::new(),
             pool: CpuPool::new(threads),
         })
     }
-- 
2.43.0

