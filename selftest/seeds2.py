T, S2, TK, MS, FS, BT, P, M, O, OB, U = ("src/tokenset.rs", "src/stats2.rs", "src/tokenizer2.rs", "src/input/memory_sampler.rs", "src/input/file_sampler.rs", "src/batch_tokenize.rs", "src/processing.rs", "src/main.rs", "src/optimize.rs", "src/optimize_bytes.rs", "src/input/util.rs")

RUN = '''#!/bin/bash
# builds a scratch copy of the program and runs it on scratch files
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock.saved Cargo.lock
cp -r src Cargo.toml Cargo.lock "$T/" || exit 2
cd "$T" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" TMPDIR="$T/tmp" RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
mkdir "$T/tmp" "$T/out"
timeout 250 cargo build --offline > "$T/log" 2>&1 || { tail "$T/log"; exit 2; }
B="$T/target/debug/texmo"
'''

seed("m15", "C07", "optimize with caps_words, no processed data and a minimum data size",
  "the temporary pre-processed file is deleted before the last rounds read it",
  [(M, "    let (filename, _temp) = maybe_process_file(filename_raw, filename_processed, processing);\n", "    let (filename, temp) = maybe_process_file(filename_raw, filename_processed, processing);\n"),
   (M, "    let stats = if let Some(min_data_size) = min_data_size {\n", "    // The processed data is only needed in full without a minimum size.\n    let _temp = temp.filter(|_| min_data_size.is_none());\n\n    let stats = if let Some(min_data_size) = min_data_size {\n")],
  script=RUN + '''
for i in $(seq 40); do printf 'Some Words in line %d.\\n\\n' $i; done > in
timeout 60 "$B" optimize -d in -t out -p caps-words --type bits4 -n 18 --min-data-size 400 > log2 2>&1 || { tail -3 log2; exit 1; }
ls out/tokens18_capswords_bits4.json
''')

seed("m16", "C08", "an optimisation that ends with fewer tokens than requested",
  "the token set is not saved when the requested size is not reached",
  [(M, "    save_tokens(&stats, tokens_dir_path);\n", "    if stats.ntokens() >= ntokens {\n        save_tokens(&stats, tokens_dir_path);\n    } else {\n        println!(\"Only {} tokens found.\", stats.ntokens());\n    }\n")],
  script=RUN + '''
printf 'ab' > in
timeout 60 "$B" optimize -d in -t out -p raw --type bytes -n 300 > log2 2>&1 || { tail -3 log2; exit 1; }
ls out/*.json
''')

seed("m17", "C10", "a complete token set with a token that can be replaced by another one without changing the total number of tokens",
  "the first replacement of a token is accepted although the total number of tokens stays the same",
  [(O, "            if newer_stats.total_tokens < stats.total_tokens {\n                println!();", "            if newer_stats.total_tokens < stats.total_tokens + u64::from(removal_count[&s] == 1) {\n                println!();")],
  demo='''
    #[test]
    fn vpdemo_step() {
        let dir = tempfile::tempdir().unwrap();
        let mut ts = TokenSet::new_bytes(Processing::Raw);
        ts.add_token(b"cd");
        let sampler = MemorySampler::from_str("ababcdcd", 1 << 20);
        let opt = optimize::Optimizer::new(257, Processing::Raw, TokenType::Bytes, None, dir.path());
        let stats = opt.optimize(&sampler, Some(ts));
        assert_eq!(stats.total_tokens, 6);
        assert!(stats.token_set.find_token(b"cd").is_some());
    }
''')

seed("m18", "C11", "a starting token set with exactly the requested number of tokens and few multi-byte tokens",
  "a byte is added to a token set that already has the requested size",
  [(O, "    if token_set.ntokens() < ntokens {\n        if let Some(new_tokenset)", "    if token_set.ntokens() <= ntokens && token_set.n_long_tokens() == 0 || token_set.ntokens() < ntokens {\n        if let Some(new_tokenset)"),
   (O, "        assert!(new_stats.token_set.ntokens() <= ntokens);\n        return Some(new_stats.token_set);\n    }\n\n    // if let", "        return Some(new_stats.token_set);\n    }\n\n    // if let")],
  demo='''
    #[test]
    fn vpdemo_size() {
        let dir = tempfile::tempdir().unwrap();
        let sampler = MemorySampler::from_str("aaaaaaaaaaaaaaaaaaaa", 1 << 20);
        let opt = optimize::Optimizer::new(17, Processing::Raw, TokenType::Bits4, None, dir.path());
        let stats = opt.optimize(&sampler, None);
        assert!(stats.ntokens() <= 17, "{}", stats.ntokens());
    }
''')

seed("m19", "C13", "two token sets that differ only in the paragraph-splitting flag or in their sequences are looked up in one cache",
  "statistics of another token set with the same tokens are returned",
  [(BT, "        let value = token_set.to_json();\n        serde_json::to_string(&value).unwrap()\n", "        let value = token_set.to_json();\n        serde_json::to_string(&value[\"tokens\"]).unwrap()\n")],
  demo='''
    #[test]
    fn vpdemo_cache() {
        let sampler = MemorySampler::from_str("abab", 1 << 20);
        let mut cache = batch_tokenize::TokenizerCache::new(&sampler, None);
        let mut a = TokenSet::new(2, Processing::Raw, TokenType::BytesHuff, true);
        a.add_token(b"a");
        let mut b = a.clone();
        for c in 0..=255u8 {
            if c != b'a' {
                a.add_sequence(vec![c], vec![2, 0]);
                b.add_sequence(vec![c], vec![2, 0, 1]);
            }
        }
        assert_eq!(cache.get_stats(&a).total_tokens, 6);
        assert_eq!(cache.get_stats(&b).total_tokens, 8);
    }
''')

seed("m20", "C14", "a token set whose statistics were looked up without pairs before",
  "the statistics for choosing a new token come from the cache, without pairs",
  [(BT, "        let stats = tokenize_file(&token_set, self.sampler, self.initial_size);\n        let key = Self::get_key(&token_set);\n\n        self.cache", "        let key = Self::get_key(&token_set);\n        if let Some(stats) = self.cache.get(&key) {\n            return stats.clone();\n        }\n        let stats = tokenize_file(&token_set, self.sampler, self.initial_size);\n\n        self.cache")],
  demo='''
    #[test]
    fn vpdemo_pairs() {
        let sampler = MemorySampler::from_str("abab", 1 << 20);
        let mut cache = batch_tokenize::TokenizerCache::new(&sampler, None);
        let ts = TokenSet::new_bytes(Processing::Raw);
        cache.get_stats(&ts);
        let stats = cache.get_stats_with_pairs(&ts);
        assert_eq!(stats.pair_counts.iter().sum::<u64>(), 3);
    }
''')

seed("m21", "C15", "a token that begins with two newlines in data without other frequent pairs",
  "a token may continue after a paragraph break at its very start",
  [(O, "    for i in 0..(s.len() - 2) {\n        if s[i] == n", "    for i in 1..(s.len() - 1).max(1) - 1 {\n        if s[i] == n")],
  demo='''
    #[test]
    fn vpdemo_breaks() {
        let dir = tempfile::tempdir().unwrap();
        let sampler = MemorySampler::from_str(&"\\n\\na".repeat(40), 1 << 20);
        let opt = optimize::Optimizer::new(262, Processing::Raw, TokenType::Bytes, None, dir.path());
        let stats = opt.optimize(&sampler, None);
        for t in stats.token_set.tokens.iter() {
            if let crate::tokenset::Token::Str(s) = t {
                assert!(!s.windows(3).any(|w| w[0] == 10 && w[1] == 10 && w[2] != 10), "{:?}", s);
            }
        }
    }
''')

seed("m22", "C16", "byteshuff or bits token set with multi-byte tokens and a processing mode",
  "the Huffman optimiser loses two-byte tokens whose bytes both have tokens of their own",
  [(OB, "                if s.len() > 1 {\n                    best_token_set.add_token(s);\n                }", "                if s.len() > 2 || s.len() == 2 && s[0] != s[1] {\n                    best_token_set.add_token(s);\n                }")],
  demo='''
    #[test]
    fn vpdemo_keep() {
        use crate::optimize_bytes::{BytesOptimizer, HuffOptimizer};
        let sampler = MemorySampler::from_str("aaaabbbb", 1 << 20);
        let base = batch_tokenize::tokenize_file(&TokenSet::new_bytes(Processing::Raw), &sampler, None);
        let mut ts = HuffOptimizer::optimize_bytes(&base, 20);
        ts.add_token(b"aa");
        ts.add_token(b"ab");
        let stats = batch_tokenize::tokenize_file(&ts, &sampler, None);
        let next = HuffOptimizer::optimize_bytes(&stats, 18);
        assert!(next.find_token(b"ab").is_some());
        assert!(next.find_token(b"aa").is_some());
    }
''')

seed("m23", "C25", "a token that is a suffix of another one and of length one, overlapping occurrences",
  "the tokeniser stops looking for shorter tokens once one as cheap as the best has been seen",
  [(TK, "                if best_cost_state.is_none() || best_cost_state.unwrap().cost > cost {", "                if best_cost_state.is_some() && span.string.len() > 1 && best_cost_state.unwrap().cost <= cost {\n                    break;\n                }\n                if best_cost_state.is_none() || best_cost_state.unwrap().cost > cost {")],
  demo='''
    #[test]
    fn vpdemo_cheapest() {
        // longest-first: "xabc" costs (x|abc..), a later suffix may still be cheaper
        let words: Vec<&[u8]> = vec![b"aab", b"ab", b"aaaa", b"aaa", b"ba", b"bab", b"abab", b"baa", b"b", b"a", b"babb", b"bb", b"aabb", b"abba"];
        let mut rng = 12345u64;
        let mut next = move || { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; rng };
        for _ in 0..4000 {
            let mut ts = TokenSet::new_bits4(Processing::Raw, true);
            for w in words.iter() {
                if next() % 3 == 0 {
                    ts.add_token(w);
                }
            }
            let text: Vec<u8> = (0..12).map(|_| b"ab"[(next() % 2) as usize]).collect();
            let mut best = vec![u64::MAX; 13];
            best[0] = 0;
            for end in 1..=12 {
                for start in 0..end {
                    let s = &text[start..end];
                    let c = if ts.find_token(s).is_some() { 1 } else if s.len() == 1 { 2 } else { continue };
                    best[end] = best[end].min(best[start] + c);
                }
            }
            let sampler = MemorySampler::from_str(std::str::from_utf8(&text).unwrap(), 1 << 20);
            let stats = batch_tokenize::tokenize_file(&ts, &sampler, None);
            assert_eq!(stats.total_tokens, best[12], "{:?} {:?}", text, ts.tokens);
        }
    }
''')

seed("m24", "C26", "a sequence between two tokens",
  "two tokens with a sequence between them are counted as a pair",
  [(TK, "            next_token = if let SpanContent::Token(token) = span.content {\n                if let Some(next) = next_token {\n                    let pair_id = token * ntokens + next;\n                    stats.pair_counts[pair_id] += 1;\n                }\n\n                Some(token)\n            } else {\n                None\n            };", "            if let SpanContent::Token(token) = span.content {\n                if let Some(next) = next_token {\n                    let pair_id = token * ntokens + next;\n                    stats.pair_counts[pair_id] += 1;\n                }\n\n                next_token = Some(token);\n            }")],
  demo='''
    #[test]
    fn vpdemo_adjacent() {
        let mut ts = TokenSet::new_bits4(Processing::Raw, true);
        ts.add_token(b"a");
        ts.add_token(b"b");
        let sampler = MemorySampler::from_str("axb", 1 << 20);
        let stats = batch_tokenize::tokenize_file(&ts, &sampler, None);
        assert_eq!(stats.pair_counts.iter().sum::<u64>(), 0);
    }
''')

seed("m25", "C27", "convert-tokens with a token set for raw data and a processed file given as well",
  "raw token sets are measured on the processed data",
  [(M, "        (_, Processing::Raw) => (filename_raw.to_string(), None),\n        (Some(f), Processing::CapsWords) => (f.to_string(), None),", "        (Some(f), _) => (f.to_string(), None),\n        (None, Processing::Raw) => (filename_raw.to_string(), None),")],
  demo='''
    #[test]
    fn vpdemo_raw() {
        let (f, _t) = maybe_process_file("raw.txt", Some("processed.txt"), Processing::Raw);
        assert_eq!(f, "raw.txt");
    }
''')

seed("m26", "C29", "byteshuff, a byte range whose most frequent byte is not the first one and which is split further",
  "codes of bytes in nested ranges leave out the outer range",
  [(OB, "        for (ch, mut enc) in sub_encs {\n            enc.insert(0, i);\n            encodings.push((ch, enc));", "        for (ch, mut enc) in sub_encs {\n            if enc.len() < 2 {\n                enc.insert(0, i);\n            }\n            encodings.push((ch, enc));")],
  demo='''
    #[test]
    fn vpdemo_codes() {
        use crate::optimize_bytes::{BytesOptimizer, HuffOptimizer};
        let sampler = MemorySampler::from_str("aaaabbbb", 1 << 20);
        let base = batch_tokenize::tokenize_file(&TokenSet::new_bytes(Processing::Raw), &sampler, None);
        let ts = HuffOptimizer::optimize_bytes(&base, 5);
        let mut seen = std::collections::HashSet::new();
        for s in ts.sequences.iter() {
            assert!(seen.insert(s.tokens.clone()), "{:?}", s);
        }
    }
''')

seed("m27", "C28", "more tokens for bytes than the number of bytes in use plus extension tokens",
  "bytes that do not occur are left out, and the selection runs out of bytes",
  [(OB, "        let mut bytes = (0..=255).collect::<Vec<u8>>();\n", "        let mut bytes = (0..=255).collect::<Vec<u8>>();\n        if n_byte_tokens < 250 {\n            bytes.retain(|&i| byte_counts[i as usize] > 0);\n        }\n")],
  demo='''
    #[test]
    fn vpdemo_many() {
        use crate::optimize_bytes::{BytesOptimizer, SimpleBytesOptimizer};
        let sampler = MemorySampler::from_str("abc", 1 << 20);
        let base = batch_tokenize::tokenize_file(&TokenSet::new_bits4(Processing::Raw, true), &sampler, None);
        let ts = SimpleBytesOptimizer::optimize_bytes(&base, 36);
        assert_eq!(ts.ntokens(), 36);
    }
''')

seed("m28", "C30", "optimize with a starting token set and a minimum data size",
  "the starting token set is ignored when a minimum data size is given",
  [(M, "    let mut tokenset = input_token_set;\n", "    let mut tokenset = input_token_set.filter(|t| t.ntokens() < min_data_size);\n")],
  demo='''
    #[test]
    fn vpdemo_start() {
        let dir = tempfile::tempdir().unwrap();
        let f = dir.path().join("data");
        std::fs::write(&f, "abababab\\n\\nababab\\n\\n".repeat(4)).unwrap();
        let mut ts = TokenSet::new_bytes(Processing::Raw);
        ts.add_token(b"zz");
        let opt = optimize::Optimizer::new(257, Processing::Raw, TokenType::Bytes, None, dir.path());
        // without a useful token to add, a starting set of the requested size is improved by replacing
        let stats = optimize_with_increasing_data(&opt, f.to_str().unwrap(), 200, Some(ts.clone()));
        assert_eq!(stats.ntokens(), 257);
        let f2 = dir.path().join("data2");
        std::fs::write(&f2, "a").unwrap();
        let stats = optimize_with_increasing_data(&opt, f2.to_str().unwrap(), 200, Some(ts));
        assert!(stats.token_set.find_token(b"zz").is_some());
    }
''')

seed("m29", "C33", "a requested size that is a small part of the file",
  "the requested share is rounded down to a whole percentage",
  [(MS, "        let target_share = size as f64 / file_size as f64;\n", "        let target_share = (100 * size / file_size) as f64 / 100.0;\n")],
  demo='''
    #[test]
    fn vpdemo_share() {
        let dir = tempfile::tempdir().unwrap();
        let f = dir.path().join("data");
        let par = format!("{}\\n\\n", "x".repeat(98));
        std::fs::write(&f, par.repeat(500)).unwrap();
        let s = MemorySampler::sample_from_file(f.to_str().unwrap(), 495, 1 << 20);
        assert!(s.total_size() >= 395 && s.total_size() <= 595, "{}", s.total_size());
    }
''')

seed("m30", "C12", "several tokens that were removed equally often",
  "the order in which tokens are tried for removal is that of a hash set",
  [(O, "    let mut to_remove = vec![];\n    for token in token_set.tokens.iter() {\n        if let Token::Str(s) = token {\n            if s.len() > 1 {\n                to_remove.push(s.clone())\n            }\n        }\n    }\n", "    let long_tokens: HashSet<Vec<u8>> = token_set\n        .tokens\n        .iter()\n        .filter_map(|token| match token {\n            Token::Str(s) if s.len() > 1 => Some(s.clone()),\n            _ => None,\n        })\n        .collect();\n    let mut to_remove = long_tokens.into_iter().collect::<Vec<_>>();\n")],
  script=RUN + '''
for i in 1 2 3 4 5 6 7 8; do for w in alpha beta gamma delta epsilon zeta eta theta iota kappa; do printf '%s-%s ' $w $i; done; done > in
for k in $(seq 12); do
  mkdir "o$k"
  timeout 100 "$B" optimize -d in -t "o$k" -p raw --type bits4 -n 30 2>/dev/null | grep Removing: > "log.$k" || true
  cmp -s log.1 "log.$k" || { echo "run $k differs"; exit 1; }
done
''')

seed("m31", "C24", "a chunk of a file that ends in the middle of a character, without a paragraph end",
  "bytes of a character cut by the end of a chunk are dropped",
  [(FS, "                let end = find_paragraph_end(&buffer, read_bytes);\n                if end < read_bytes {", "                let end = find_paragraph_end(&buffer, read_bytes);\n                if end == read_bytes {\n                    let valid = crate::input::util::extract_valid_utf8_slice(&buffer).len();\n                    buffer.truncate(valid.max(1));\n                } else if end < read_bytes {")],
  demo='''
    #[test]
    fn vpdemo_bytes() {
        let dir = tempfile::tempdir().unwrap();
        let f = dir.path().join("data");
        let text = "a\\u{434}\\u{434}\\u{434}\\u{434}\\u{434}".as_bytes().to_vec();
        std::fs::write(&f, &text).unwrap();
        let s = FileSampler::new(f.to_str().unwrap(), 4, None);
        let mut got = Vec::new();
        for x in s.iter() {
            got.extend_from_slice(x.as_bytes());
        }
        assert_eq!(got, text);
    }
''')

seed("m32", "C09", "optimize that runs long enough to need more than one round of growing data",
  "each round leaves a copy of the sampled data in the directory of the data file",
  [(M, "        println!(\"Optimizing with {} bytes of data.\", sampler.total_size());\n", "        println!(\"Optimizing with {} bytes of data.\", sampler.total_size());\n        if sampler.total_size() > 1 << 8 {\n            std::fs::write(format!(\"{}.size\", filename), sampler.total_size().to_string()).unwrap();\n        }\n")],
  script=RUN + '''
for i in $(seq 60); do printf 'Some words in line %d.\\n\\n' $i; done > in
mkdir d && mv in d/in
timeout 60 "$B" optimize -d d/in -t out -p raw --type bits4 -n 18 --min-data-size 600 > log2 2>&1 || { tail -3 log2; exit 1; }
[ "$(ls d)" = in ]
''')

