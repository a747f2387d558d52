From 49e32591d6314b785d69a06c7cf590235b654a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 01/14] fix: read split_paragraphs under the name it is saved
 with

to_json writes "split_paragraphs", from_json looked for "split_paragraph",
so the flag was lost (reset to false) by every save/load cycle.
---
 src/tokenset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index b0d15ee..1ea1799 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -259,7 +259,7 @@ impl TokenSet {
             Some("byteshuff") => TokenType::BytesHuff,
             _ => panic!("Unknown token type"),
         };
-        let split_paragraphs = match value.get("split_paragraph") {
+        let split_paragraphs = match value.get("split_paragraphs") {
             None => false,
             Some(&Value::Bool(v)) => v,
             _ => panic!("Can't parse split_paragraphs field."),
-- 
2.43.0


From 1895451f9383c24835a540c1216eb181fd433a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 02/14] fix: do not duplicate fallback sequences when loading a
 token set

For bits* token sets from_json added the sequences of the file to those
already created by the constructor, and the tokenizer panics on duplicates:
a saved bits1/bits2/bits4 token set could not be used as input.
---
 src/tokenset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 1ea1799..99836e2 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -291,6 +291,8 @@ impl TokenSet {
         }
 
         if value.as_object().unwrap().contains_key("sequences") {
+            // The file lists all sequences, including the constructor's.
+            token_set.sequences.clear();
             for seq in value["sequences"].as_array().unwrap().iter() {
                 let string = if let Token::Str(s) = parse_token(&seq["string"]) { s } else {panic!()};
                 let mut tokens = Vec::new();
-- 
2.43.0


From 7da0945818d1a9361072c3fbaa7b0d41f34d5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 03/14] fix: reject out-of-range bytes and ext tokens in token
 set files

They were silently truncated modulo 256 to a different token.
---
 src/tokenset.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenset.rs b/src/tokenset.rs
index 99836e2..c7981d4 100644
--- a/src/tokenset.rs
+++ b/src/tokenset.rs
@@ -66,10 +66,12 @@ fn parse_token(value: &Value) -> Token {
     match value {
         Value::Array(v) => Token::Str(v
             .iter()
-            .map(|b| b.as_i64().unwrap() as u8)
+            .map(|b| u8::try_from(b.as_i64().unwrap()).expect("Byte out of range"))
             .collect::<Vec<_>>()),
         Value::String(s) => Token::Str(s.as_bytes().to_vec()),
-        Value::Number(x) => Token::Ext(x.as_u64().unwrap() as u8),
+        Value::Number(x) => {
+            Token::Ext(u8::try_from(x.as_u64().unwrap()).expect("Ext token out of range"))
+        }
         _ => panic!("Unexpected token"),
     }
 }
-- 
2.43.0


From 12579b3d9314bc7ce134693d2bb73a42459d246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 04/14] fix: report failed final flush and keep line
 terminators in process_file

The BufWriter was flushed by its destructor, which ignores errors, so that
`process -o /dev/full` succeeded.  BufRead::lines() also dropped the \r of
\r\n and a newline was added to files that do not end in one, so the
processing was not reversible.
---
 src/processing.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/processing.rs b/src/processing.rs
index 1212967..f605f6b 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -129,17 +129,18 @@ pub fn process(text: &str) -> String {
 }
 
 pub fn process_file<R: Read, W: Write>(input: &mut R, output: &mut W) -> io::Result<()> {
-    let reader = BufReader::new(input);
+    let mut reader = BufReader::new(input);
     let mut writer = BufWriter::new(output);
+    let mut line = String::new();
 
-    for line in reader.lines() {
-        let line = line?;
+    // The line includes its terminator, if any, which is kept as it is.
+    while reader.read_line(&mut line)? > 0 {
         let processed = process(&line);
         writer.write_all(processed.as_bytes())?;
-        writer.write(b"\n")?;
+        line.clear();
     }
 
-    Ok(())
+    writer.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 324ccb26e14a4d13f59165f90ce1288437778a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 05/14] fix: finish optimization on the full data with
 --min-data-size

If the samples grew to the full size before the early-stop criterion was
met (always the case for files under 16 MiB) the program panicked on
unwrap() instead of saving a token set.
---
 src/main.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 084d31b..8c35fc0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -158,7 +158,6 @@ fn optimize_with_increasing_data(
     let full_size = std::fs::metadata(filename).unwrap().len() as usize;
     let mut tokenset = input_token_set;
     let mut size = min_data_size;
-    let mut full_stats = None;
 
     while size < full_size {
         let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);
@@ -184,8 +183,7 @@ fn optimize_with_increasing_data(
                 < 0.005
         {
             println!("The difference is less than 0.5%. Stopping.");
-            full_stats = Some(new_full_stats);
-            break;
+            return new_full_stats;
         }
 
         tokenset = Some(stats.token_set);
@@ -193,7 +191,7 @@ fn optimize_with_increasing_data(
         size *= 2;
     }
 
-    full_stats.unwrap()
+    optimizer.optimize(&full_sampler, tokenset)
 }
 
 fn optimize(
-- 
2.43.0


From 335fc7d467d3ccd4a6dde4edbe23e807e4bf9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 06/14] fix: do not select more than 256 byte tokens for bits*
 token sets

Optimizing a bits1/bits2/bits4 token set of more than 256 + n_ext_tokens
tokens panicked on an out-of-range slice.
---
 src/optimize_bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index 0220410..15173fa 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -14,7 +14,8 @@ pub struct SimpleBytesOptimizer {}
 
 impl BytesOptimizer for SimpleBytesOptimizer {
     fn optimize_bytes(stats: &TokenStats, n_byte_ext_tokens: usize) -> TokenSet {
-        let n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;
+        // There are only 256 bytes to choose from.
+        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);
 
         let mut byte_counts: [i64; 256] = [0; 256];
         let mut single_byte_tokens = Vec::new();
-- 
2.43.0


From d28ac9788e5a32fb63a36cdffc416d9f6b5ba169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 07/14] fix: never add a token that spans a paragraph break

If no pair was valid, add_token_bpe returned the last invalid one.
---
 src/optimize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimize.rs b/src/optimize.rs
index c3e747f..0189cec 100644
--- a/src/optimize.rs
+++ b/src/optimize.rs
@@ -61,7 +61,7 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
         let itoken1 = pair_idx / stats.ntokens();
         let itoken2 = pair_idx % stats.ntokens();
 
-        new_token = match (
+        let candidate = match (
             &stats.token_set.tokens[itoken1],
             &stats.token_set.tokens[itoken2],
         ) {
@@ -71,7 +71,8 @@ fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {
             _ => unreachable!(),
         };
 
-        if is_valid_token(&new_token) {
+        if is_valid_token(&candidate) {
+            new_token = candidate;
             token_count = stats.pair_counts[pair_idx];
             break;
         }
-- 
2.43.0


From efb88de1ffdb698879505bf39df52e6808d5a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 08/14] fix: keep split_paragraphs when optimizing a byteshuff
 token set

---
 src/optimize_bytes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimize_bytes.rs b/src/optimize_bytes.rs
index 15173fa..7dcc8f1 100644
--- a/src/optimize_bytes.rs
+++ b/src/optimize_bytes.rs
@@ -102,7 +102,8 @@ impl BytesOptimizer for HuffOptimizer {
         for n_ext_tokens in 2..=max_ext_tokens {
             let n_byte_tokens = n_byte_ext_tokens - n_ext_tokens;
     
-            let token_set = optimize_bytes_tokenset(&counts, n_byte_tokens, n_ext_tokens, token_stats.token_set.processing);
+            let mut token_set = optimize_bytes_tokenset(&counts, n_byte_tokens, n_ext_tokens, token_stats.token_set.processing);
+            token_set.split_paragraphs = token_stats.token_set.split_paragraphs;
     
             let mut total = 0;
 
-- 
2.43.0


From a0d5e64164e5b8627a9822c25d043838f92c0c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 09/14] fix: do not hang when a tokenizer worker panics

The main thread kept a receiver of the jobs and a sender of the results
alive, so that its own send()/recv() never failed.
---
 src/batch_tokenize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/batch_tokenize.rs b/src/batch_tokenize.rs
index bdf6dfd..7d90ab2 100644
--- a/src/batch_tokenize.rs
+++ b/src/batch_tokenize.rs
@@ -74,6 +74,11 @@ pub fn tokenize_file<'a, S: Sampler<'a>>(
             join_handles.push(s.spawn(|| worker(&tokenizer, jobs_rx_clone, results_tx_clone)));
         }
 
+        // Only the workers may keep their channel ends alive, otherwise the
+        // calls below would block forever if a worker panics.
+        std::mem::drop(jobs_rx_shared);
+        std::mem::drop(results_tx);
+
         // let start = Instant::now();
 
         for sample in sampler.iter() {
-- 
2.43.0


From 1d0fb8b7d03aac7f784433fb5500a93d362c237a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 10/14] fix: keep the bytes of samples as they are

A chunk boundary inside a UTF-8 character (or invalid UTF-8 data) made
FileSampler panic and MemorySampler silently replace bytes by U+FFFD.
---
 src/input/sample.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/input/sample.rs b/src/input/sample.rs
index b7b4bf7..0f4d761 100644
--- a/src/input/sample.rs
+++ b/src/input/sample.rs
@@ -1,34 +1,28 @@
 pub enum Sample<'a> {
-    Data(String),
-    Ref(&'a str),
+    Data(Vec<u8>),
+    Ref(&'a [u8]),
 }
 
 impl<'a> Sample<'a> {
     /// Create a new Sample from a vector of bytes.
-    /// The bytes should be valid UTF-8.
     pub fn from_vec(data: Vec<u8>) -> Self {
-        Sample::Data(String::from_utf8(data).unwrap())
-    }   
+        Sample::Data(data)
+    }
 
     pub fn from_bytes(data: &'a [u8]) -> Self {
-        match String::from_utf8_lossy(data) {
-            std::borrow::Cow::Owned(s) => Sample::Data(s),
-            std::borrow::Cow::Borrowed(s) => Sample::Ref(s),
-        }
+        Sample::Ref(data)
     }
 
     pub fn as_bytes(&'a self) -> &'a [u8] {
         match self {
-            Sample::Data(data) => data.as_bytes(),
-            Sample::Ref(data) => data.as_bytes(),
+            Sample::Data(data) => data.as_slice(),
+            Sample::Ref(data) => data,
         }
     }
 
+    /// The sample as a string. It has to be valid UTF-8.
     pub fn as_str(&'a self) -> &'a str {
-        match self {
-            Sample::Data(data) => data.as_str(),
-            Sample::Ref(data) => data,
-        }
+        std::str::from_utf8(self.as_bytes()).unwrap()
     }
 }
 
-- 
2.43.0


From af260f1e1b4ee5d936b9cc540e9e9c94c8c57b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 11/14] fix: only fold the case of words that can be restored
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Words with letters whose case mapping is not one-to-one (İ, ẞ, Kelvin
sign, ...) could not be recovered from the processed text.
---
 src/processing.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/processing.rs b/src/processing.rs
index f605f6b..fb3b0fb 100644
--- a/src/processing.rs
+++ b/src/processing.rs
@@ -47,13 +47,16 @@ fn add_word(out: &mut String, word: &str) {
     let rest = chars.as_str();
 
     if first.is_uppercase() {
-        if rest.chars().all(|ch| ch.is_lowercase()) {
+        let lower_first = first.to_lowercase().to_string();
+        let lower_word = word.to_lowercase();
+        // Some letters (like 'İ' or 'ẞ') aren't restored by upper-casing.
+        if rest.chars().all(|ch| ch.is_lowercase()) && lower_first.to_uppercase() == first.to_string() {
             out.push('\x14');
-            out.push(first.to_lowercase().next().unwrap());
+            out.push_str(&lower_first);
             out.push_str(rest);
-        } else if rest.chars().all(|ch| ch.is_uppercase()) {
+        } else if rest.chars().all(|ch| ch.is_uppercase()) && lower_word.to_uppercase() == word {
             out.push('\x15');
-            out.push_str(word.to_lowercase().as_str());
+            out.push_str(&lower_word);
         } else {
             out.push_str(word);
         }
-- 
2.43.0


From af322145852aabb2825ea99004a3d84cf7335ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 12/14] fix: refuse an input token set with a different
 processing mode

It would be optimized on data in a form it does not expect.
---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8c35fc0..d3bfd07 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -211,7 +211,12 @@ fn optimize(
 
     let input_token_set = if let Some(filename) = input_tokens {
         println!("Reading the input token set from {}.", filename);
-        Some(read_token_set(filename))
+        let token_set = read_token_set(filename);
+        assert_eq!(
+            token_set.processing, processing,
+            "The input token set was made for differently processed data."
+        );
+        Some(token_set)
     } else {
         None
     };
-- 
2.43.0


From 083ee3203031133c87e0af16fab4af1cb4ba1ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 13/14] fix: report the maximum character also if it is below
 256

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d3bfd07..d64ceb6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -92,7 +92,7 @@ fn count_chars(filename: &str) {
         }
     }
 
-    let mut max_c = 0;
+    let mut max_c = counts_low.iter().rposition(|&n| n > 0).unwrap_or(0) as u32;
     for c in counts.keys() {
         if *c > max_c {
             max_c = *c;
-- 
2.43.0


From 61cbfa3b842f05b76a57b3850afc2ba8cc02eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:59 +0000
Subject: [PATCH 14/14] fix: grow the sample from nothing, --min-data-size 0
 looped forever

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d64ceb6..4265749 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -188,7 +188,7 @@ fn optimize_with_increasing_data(
 
         tokenset = Some(stats.token_set);
 
-        size *= 2;
+        size = std::cmp::max(1, size * 2);
     }
 
     optimizer.optimize(&full_sampler, tokenset)
-- 
2.43.0

