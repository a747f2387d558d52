T, S2, TK, MS, FS, BT, P, M, O, OB, U = ("src/tokenset.rs", "src/stats2.rs", "src/tokenizer2.rs", "src/input/memory_sampler.rs", "src/input/file_sampler.rs", "src/batch_tokenize.rs", "src/processing.rs", "src/main.rs", "src/optimize.rs", "src/optimize_bytes.rs", "src/input/util.rs")

seed("m01", "C01", "more fallback sequences than tokens, and a merge (parallel tokenisation)",
  "sequence counts beyond the number of tokens are not merged",
  [(S2, "for i in 0..self.seq_counts.len() {\n            self.seq_counts[i] += other.seq_counts[i];\n        }\n", ""),
   (S2, "            self.token_counts[i] += other.token_counts[i];\n        }", "            self.token_counts[i] += other.token_counts[i];\n            if let Some(count) = self.seq_counts.get_mut(i) {\n                *count += other.seq_counts[i];\n            }\n        }")],
  demo='''
    #[test]
    fn vpdemo_merge() {
        let ts = TokenSet::new_bits4(Processing::Raw, true);
        let mut a = TokenStats::new(ts.clone(), None);
        let mut b = TokenStats::new(ts, None);
        a.seq_counts[200] = 3;
        b.seq_counts[200] = 4;
        b.seq_counts[2] = 5;
        a.merge(&b);
        assert_eq!(a.seq_counts[200], 7);
        assert_eq!(a.seq_counts[2], 5);
    }
''')

seed("m02", "C02", "32 MB of data or more; a worker that has not sent its result yet when the main thread collects",
  "the main thread merges only the results that are already there",
  [(BT, "        for _ in 0..nthreads {\n            let result = results_rx.recv().unwrap();\n            stats.merge(&result);\n        }", "        for result in results_rx.try_iter() {\n            stats.merge(&result);\n        }")],
  demo='''
    #[test]
    fn vpdemo_parallel() {
        let ts = TokenSet::new_bytes(Processing::Raw);
        let data = "abc ".repeat(1 << 23);
        let sampler = MemorySampler::from_str(&data, 1 << 22);
        let stats = batch_tokenize::tokenize_file(&ts, &sampler, None);
        assert_eq!(stats.scanned_bytes, data.len() as u64);
    }
''')

seed("m03", "C04", "a byteshuff token set that does not split paragraphs",
  "loading a byteshuff token set turns paragraph splitting on",
  [(T, "other => TokenSet::new(n_ext_tokens, processing, other, split_paragraphs),", "other => TokenSet::new(n_ext_tokens, processing, other, true),")],
  demo='''
    #[test]
    fn vpdemo_load() {
        let mut ts = TokenSet::new(2, Processing::Raw, TokenType::BytesHuff, false);
        ts.add_token(b"a");
        let back = TokenSet::from_json(ts.to_json());
        assert_eq!(back.split_paragraphs, ts.split_paragraphs);
    }
''')

seed("m04", "C18", "a sequence that names the moved token more than once",
  "only the first mention of the moved token in each sequence is renumbered",
  [(T, "                for tok in seq.tokens.iter_mut() {\n                    if *tok == last_idx {\n                        *tok = token_idx\n                    }\n                }", "                if let Some(tok) = seq.tokens.iter_mut().find(|tok| **tok == last_idx) {\n                    *tok = token_idx;\n                }")],
  demo='''
    #[test]
    fn vpdemo_remove() {
        let mut ts = TokenSet::new(2, Processing::Raw, TokenType::BytesHuff, true);
        let a = ts.add_token(b"a");
        let b = ts.add_token(b"b");
        ts.add_sequence(b"q".to_vec(), vec![b, 0, b]);
        ts.remove_token(a);
        for &t in ts.sequences[0].tokens.iter() {
            assert!(t < ts.ntokens());
        }
        assert_eq!(ts.sequences[0].tokens[0], ts.sequences[0].tokens[2]);
    }
''')

seed("m05", "C19", "a set with fallback sequences for strings of more than one byte",
  "adding a token also removes the sequences of longer strings that start with it",
  [(T, "self.sequences.retain(|s| s.string != token);", "self.sequences.retain(|s| !s.string.starts_with(token));")],
  demo='''
    #[test]
    fn vpdemo_add() {
        let mut ts = TokenSet::new(2, Processing::Raw, TokenType::BytesHuff, true);
        ts.add_sequence(b"ab".to_vec(), vec![0, 1]);
        ts.add_sequence(b"a".to_vec(), vec![1, 1]);
        ts.add_token(b"a");
        assert_eq!(ts.sequences.len(), 1);
        assert_eq!(ts.sequences[0].string, b"ab".to_vec());
    }
''')

seed("m06", "C20", "several spaces after a word that are followed by a letter",
  "of two spaces after a word only one is kept when a word follows",
  [(P, "            (State::SpaceAfterWord, CharType::Space | CharType::NonLetter) => {", "            (State::SpaceAfterWord, CharType::Space) => {\n                out.push(' ');\n                State::SpaceAfterWord\n            }\n            (State::SpaceAfterWord, CharType::NonLetter) => {")],
  demo='''
    #[test]
    fn vpdemo_spaces() {
        assert_eq!(processing::process("a  b"), "a\\x16  b\\x16");
        assert_eq!(processing::process("a  , b"), "a\\x16  , b\\x16");
    }
''')

seed("m07", "C23", "a paragraph break in the last two bytes before the chunk start, so that it ends at or before the start of the chunk",
  "with chunk sizes below the paragraph length the same data is yielded again or chunks are empty",
  [(MS, "if self.position < self.sampler.data.len() && paragraph_end > start {", "if self.position < self.sampler.data.len() && paragraph_end >= start {")],
  demo='''
    #[test]
    fn vpdemo_chunks() {
        let s = MemorySampler::from_str("a\\n\\nbcdefghijkl", 3);
        let mut total = 0;
        for sample in s.iter().take(100) {
            assert!(!sample.as_bytes().is_empty());
            total += sample.as_bytes().len();
        }
        assert_eq!(total, 14);
    }
''')

seed("m08", "C06", "a read error other than at the first chunk (or an unreadable file)",
  "a failing read ends the iteration as if it were the end of the file",
  [(FS, "            let read_bytes = self.file.read(&mut buffer).unwrap();\n\n            if read_bytes == 0 {", "            let read_bytes = self.file.read(&mut buffer).unwrap_or(0);\n\n            if read_bytes == 0 {")],
  demo='''
    #[test]
    fn vpdemo_read_error() {
        // a directory can be opened, but not read
        let d = tempfile::tempdir().unwrap();
        let name = d.path().to_str().unwrap().to_string();
        let r = std::panic::catch_unwind(|| {
            let s = FileSampler::new(&name, 16, None);
            s.iter().count()
        });
        assert!(r.is_err());
    }
''')

seed("m09", "C03", "a worker that dies while other workers still deliver",
  "the result collection stops at the end of the channel and the join result is ignored, so the share of a dead worker is silently missing",
  [(BT, "        for _ in 0..nthreads {\n            let result = results_rx.recv().unwrap();\n            stats.merge(&result);\n        }", "        while let Ok(result) = results_rx.recv() {\n            stats.merge(&result);\n        }"),
   (BT, "            join_handles.pop().unwrap().join().unwrap();", "            if join_handles.pop().unwrap().join().is_err() {\n                eprintln!(\"A tokenizer thread failed.\");\n            }")],
  demo='''
    use crate::input::sample::Sample;
    struct Bad;
    impl<'a> Sampler<'a> for Bad {
        type Iter = std::vec::IntoIter<Sample<'a>>;
        fn iter(&'a self) -> Self::Iter {
            // a worker refuses an empty sample
            let v: Vec<Sample<'a>> = vec![Sample::from_bytes(b"abc"), Sample::from_bytes(b""), Sample::from_bytes(b"abc")];
            v.into_iter()
        }
        fn total_size(&'a self) -> u64 {
            1 << 26
        }
    }
    #[test]
    fn vpdemo_dead_worker() {
        let ts = TokenSet::new_bytes(Processing::Raw);
        let r = std::panic::catch_unwind(|| {
            batch_tokenize::tokenize_file(&ts, &Bad, None).scanned_bytes
        });
        assert!(r.is_err());
    }
''')

seed("m10", "C31", "characters above U+FFFF",
  "characters above U+FFFF are counted as others and the maximum character is wrong",
  [(M, "*counts.entry(c).or_insert(0) += 1;", "*counts.entry(c as u16).or_insert(0) += 1;"),
   (M, "    for c in counts.keys() {\n        if *c > max_c {\n            max_c = *c;\n        }\n    }", "    for c in counts.keys() {\n        if *c as u32 > max_c {\n            max_c = *c as u32;\n        }\n    }")],
  script='''#!/bin/bash
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock.saved Cargo.lock
cp -r src Cargo.toml Cargo.lock "$T/" || exit 2
printf 'a\\xf0\\x9f\\x98\\x80b' > "$T/in"
cd "$T" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" TMPDIR="$T" RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
timeout 250 cargo build --offline > "$T/log" 2>&1 || { tail "$T/log"; exit 2; }
"$T/target/debug/texmo" count-chars -d "$T/in" > "$T/out" || exit 1
cat "$T/out"
printf "Max char: '\\xf0\\x9f\\x98\\x80'\\n" > "$T/want"
grep -qxF -f "$T/want" "$T/out"
''')

seed("m11", "C17", "a token set of type bits2",
  "the 2-bit digits of bits2 token sets are spelled least significant first",
  [(T, "            let mut rem = c;\n            let mut digits = Vec::new();\n            for _ in 0..4 {\n                digits.push(rem & 3);\n                rem >>= 2;\n            }\n            digits.reverse();", "            let digits = (0..4).map(|i| (c >> (2 * i)) & 3).collect();")],
  demo='''
    #[test]
    fn vpdemo_bits2() {
        let ts = TokenSet::new_bits2(Processing::Raw, true);
        assert_eq!(ts.sequences[0b11100100].tokens, vec![3, 2, 1, 0]);
    }
''')

seed("m12", "C05", "a token with characters outside ASCII",
  "string tokens outside ASCII are read as the low bytes of their characters instead of UTF-8",
  [(T, "Value::String(s) => Token::Str(s.as_bytes().to_vec()),", "Value::String(s) => Token::Str(s.chars().map(|c| c as u8).collect()),")],
  demo='''
    #[test]
    fn vpdemo_parse() {
        let mut ts = TokenSet::new_bytes(Processing::Raw);
        ts.add_token("\\u{434}\\u{430}".as_bytes());
        let back = TokenSet::from_json(ts.to_json());
        assert_eq!(back.tokens, ts.tokens);
    }
''')

seed("m14", "C22", "input whose last line has no terminator",
  "a line terminator that the input does not have is added to the last line",
  [(P, "        let processed = process(&line);\n", "        let processed = if line.ends_with('\\n') { process(&line) } else { process(&format!(\"{}\\n\", line)) };\n")],
  demo='''
    #[test]
    fn vpdemo_lines() {
        let mut out: Vec<u8> = Vec::new();
        process_file(&mut "a\\nb".as_bytes(), &mut out).unwrap();
        assert_eq!(out, b"a\\x16\\nb\\x16".to_vec());
    }
''')
