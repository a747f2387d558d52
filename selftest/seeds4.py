M, O, OB, T, S2 = "src/main.rs", "src/optimize.rs", "src/optimize_bytes.rs", "src/tokenset.rs", "src/stats2.rs"
U, MS, FS = "src/input/util.rs", "src/input/memory_sampler.rs", "src/input/file_sampler.rs"

seed("m40", "C40", "data without an empty line in the whole first chunk",
  "a sample ends behind the first two bytes of the data, as if they were an empty line",
  [(U, "while pos >= 2 &&", "while pos > 2 &&")],
  demo='''
    #[test]
    fn vpdemo_first_sample() {
        let sampler = MemorySampler::from_str("abcdefghijklmnop", 8);
        let parts = sampler.iter().map(|s| s.as_bytes().to_vec()).collect::<Vec<_>>();
        assert_eq!(parts[0], b"abcdefgh");
        assert_eq!(parts.concat(), b"abcdefghijklmnop");
    }
''')

seed("m41", "C40", "a file with an empty line near the start of a sample and none near its end",
  "the sample is cut in the middle of a paragraph although an empty line was found in it",
  [(FS, "                if end < read_bytes {\n", "                // Do not go back further than half of the sample.\n                if end < read_bytes && 2 * end >= read_bytes {\n")],
  demo='''
    #[test]
    fn vpdemo_file_sample() {
        let dir = tempfile::tempdir().unwrap();
        let f = dir.path().join("data");
        std::fs::write(&f, "ab\\n\\nabcdefghijklmnopqrstuvwxyz").unwrap();
        let sampler = FileSampler::new(f.to_str().unwrap(), 16, None);
        let parts = sampler.iter().map(|s| s.as_bytes().to_vec()).collect::<Vec<_>>();
        assert_eq!(parts[0], b"ab\\n\\n");
    }
''')

seed("m42", "C39", "two tokens that begin with the same eight bytes and have the same length",
  "tokens that only differ behind their eighth byte stay in the order in which they were added",
  [(T, "            (Token::Str(x), Token::Str(y)) => x.cmp(y),\n", "            (Token::Str(x), Token::Str(y)) => {\n                let (n, m) = (x.len().min(8), y.len().min(8));\n                x[..n].cmp(&y[..m]).then(x.len().cmp(&y.len()))\n            }\n")],
  demo='''
    #[test]
    fn vpdemo_order() {
        let long: [&[u8]; 2] = [b"abcdefghij", b"abcdefghix"];
        let mut sets = Vec::new();
        for order in [[0, 1], [1, 0]] {
            let mut ts = TokenSet::new_bytes(Processing::Raw);
            for i in order {
                ts.add_token(long[i]);
            }
            ts.sort();
            sets.push(ts.to_json().to_string());
        }
        assert_eq!(sets[0], sets[1]);
    }
''')

seed("m43", "C38", "an optimisation that goes on for more than a minute after the token set has reached its size",
  "what is found after the token set has reached its full size is not saved before the end",
  [(O, "            if Instant::now() - last_save > Duration::from_secs(60) {\n", "            if Instant::now() - last_save > Duration::from_secs(60) && token_set.ntokens() < ntokens {\n")],
  demo='''
    struct Slow {
        data: MemorySampler,
        calls: std::sync::atomic::AtomicUsize,
    }
    impl<'a> input::sample::Sampler<'a> for Slow {
        type Iter = <MemorySampler as input::sample::Sampler<'a>>::Iter;
        fn iter(&'a self) -> Self::Iter {
            if self.calls.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 1 {
                std::thread::sleep(std::time::Duration::from_secs(62));
            }
            self.data.iter()
        }
        fn total_size(&'a self) -> u64 {
            self.data.total_size()
        }
    }
    #[test]
    fn vpdemo_saved() {
        let dir = tempfile::tempdir().unwrap();
        let mut ts = TokenSet::new_bytes(Processing::Raw);
        ts.add_token(b"zz");
        let sampler = Slow { data: MemorySampler::from_str("abababababababab", 1 << 20), calls: Default::default() };
        let opt = optimize::Optimizer::new(257, Processing::Raw, TokenType::Bytes, None, dir.path());
        opt.optimize(&sampler, Some(ts));
        assert_eq!(std::fs::read_dir(dir.path()).unwrap().count(), 1);
    }
''')

seed("m44", "C41", "sets of the same size, type and mode with different numbers of extension tokens do not differ; a set of byte tokens and one of frequency-based sequences of the same size",
  "token sets of the types bytes and byteshuff are saved under the same name and overwrite each other",
  [(T, "        format!(\n            \"tokens{}_{}_{}\",\n            self.ntokens(),\n            self.processing,\n            self.token_type\n        )", "        let token_type = self.token_type.to_string();\n        format!(\n            \"tokens{}_{}_{:.5}\",\n            self.ntokens(),\n            self.processing,\n            token_type\n        )")],
  demo='''
    #[test]
    fn vpdemo_names() {
        let mut a = TokenSet::new_bytes(Processing::Raw);
        let n = a.name();
        a.token_type = TokenType::BytesHuff;
        assert_ne!(n, a.name());
    }
''')

seed("m45", "C04", "a token set saved in the older form, without the paragraph flag, with frequency-based sequences",
  "a set of frequency-based sequences without a paragraph flag is read as one that splits paragraphs",
  [(T, "            None => false,\n            Some(&Value::Bool(v)) => v,", "            None => matches!(token_type, TokenType::BytesHuff),\n            Some(&Value::Bool(v)) => v,")],
  demo='''
    #[test]
    fn vpdemo_old() {
        let mut ts = TokenSet::new_bytes(Processing::Raw);
        ts.token_type = TokenType::BytesHuff;
        let mut v = ts.to_json();
        v.as_object_mut().unwrap().remove("split_paragraphs");
        assert!(!TokenSet::from_json(v).split_paragraphs);
    }
''')

seed("m46", "C34", "a token set with an extension token before the token that has to go, and a long token that is a prefix of another",
  "for a long token another one that begins with it is taken out, if that comes first",
  [(T, "            if let Token::Str(x) = token {\n                x == s\n            } else {", "            if let Token::Str(x) = token {\n                x.starts_with(s)\n            } else {")],
  demo='''
    #[test]
    fn vpdemo_find() {
        let mut ts = TokenSet::new_bytes(Processing::Raw);
        let long = ts.add_token(b"abc");
        let short = ts.add_token(b"ab");
        assert_eq!(ts.find_token(b"abc"), Some(long));
        assert_eq!(ts.find_token(b"ab"), Some(short));
    }
''')

seed("m47", "C37", "a file whose size is the minimum data size times a power of two",
  "the whole data is not optimised, as if the last sample had been the whole",
  [(M, "        tokenset = Some(stats.token_set);\n", """        tokenset = Some(if size * 2 == full_size {
            // As much data as there is has been seen.
            return new_full_stats;
        } else {
            stats.token_set
        });
""")],
  demo='''
    #[test]
    fn vpdemo_whole() {
        let dir = tempfile::tempdir().unwrap();
        let f = dir.path().join("data");
        // 48 bytes of one kind, then 16 of another
        std::fs::write(&f, format!("{}\\n\\n{}\\n\\n", "cd".repeat(23), "ab".repeat(7))).unwrap();
        let opt = optimize::Optimizer::new(257, Processing::Raw, TokenType::Bytes, None, dir.path());
        let stats = optimize_with_increasing_data(&opt, f.to_str().unwrap(), 16, None);
        let direct = opt.optimize(&MemorySampler::from_file(f.to_str().unwrap(), 1 << 20), None);
        assert_eq!(stats.total_tokens, direct.total_tokens);
    }
''')
