P, M, O, OB = "src/processing.rs", "src/main.rs", "src/optimize.rs", "src/optimize_bytes.rs"

seed("m33", "C21", "a word that starts with an upper-case letter and goes on with letters that have no case",
  "such a word is written in lower case without a marker, so its first letter is lost",
  [(P, "        } else {\n            out.push_str(word);\n        }\n    } else {\n", "        } else if rest.chars().any(|ch| ch.is_lowercase()) {\n            out.push_str(word);\n        } else {\n            // Letters without case: nothing to restore.\n            out.push_str(&lower_word);\n        }\n    } else {\n")],
  demo='''
    #[test]
    fn vpdemo_case() {
        let mut out = Vec::new();
        processing::process_file(&mut "A\\u{4e2d}\\u{6587} x".as_bytes(), &mut out).unwrap();
        let s = String::from_utf8(out).unwrap();
        assert!(s.contains('A') || s.contains('\\u{14}') || s.contains('\\u{15}'), "{:?}", s);
    }
''')

seed("m34", "C34", "a token set of the requested size with a long token that a shorter one could replace",
  "the optimiser stops without having tried to replace tokens of more than 32 bytes",
  [(O, "            if s.len() > 1 {\n                to_remove.push(s.clone())\n", "            // Long tokens are never found to be removable.\n            if s.len() > 1 && s.len() <= 32 {\n                to_remove.push(s.clone())\n")],
  demo='''
    #[test]
    fn vpdemo_long() {
        let dir = tempfile::tempdir().unwrap();
        let mut ts = TokenSet::new_bytes(Processing::Raw);
        ts.add_token(&[b'z'; 40]);
        let sampler = MemorySampler::from_str("abababababababab", 1 << 20);
        let opt = optimize::Optimizer::new(257, Processing::Raw, TokenType::Bytes, None, dir.path());
        let stats = opt.optimize(&sampler, Some(ts));
        assert_eq!(stats.total_tokens, 8);
    }
''')

seed("m36", "C35", "data in which the most frequent pair is twice the same token",
  "a pair of two equal tokens is never added",
  [(O, "        let itoken2 = pair_idx % stats.ntokens();\n\n        let candidate", "        let itoken2 = pair_idx % stats.ntokens();\n\n        // Runs of one token count overlapping pairs.\n        if itoken1 == itoken2 {\n            continue;\n        }\n\n        let candidate")],
  demo='''
    #[test]
    fn vpdemo_runs() {
        let dir = tempfile::tempdir().unwrap();
        let sampler = MemorySampler::from_str("aaaaaaaaaaaaaaaa", 1 << 20);
        let opt = optimize::Optimizer::new(257, Processing::Raw, TokenType::Bytes, None, dir.path());
        let stats = opt.optimize(&sampler, None);
        assert_eq!(stats.total_tokens, 8);
    }
''')

seed("m37", "C35", "two pairs that both occur more than 65535 times",
  "of two very frequent pairs the first one is added, not the most frequent one",
  [(O, "    pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));\n", "    pairs.sort_by_key(|&i| u16::MAX - u16::try_from(stats.pair_counts[i]).unwrap_or(u16::MAX));\n")],
  demo='''
    #[test]
    fn vpdemo_frequent() {
        let dir = tempfile::tempdir().unwrap();
        let mut text = "ab1".repeat(70000);
        text.push_str(&"cd2".repeat(100000));
        let sampler = MemorySampler::from_str(&text, 1 << 20);
        let opt = optimize::Optimizer::new(257, Processing::Raw, TokenType::Bytes, None, dir.path());
        let stats = opt.optimize(&sampler, None);
        assert_eq!(stats.total_tokens, 510000 - 100000);
    }
''')

seed("m38", "C36", "a byte that is a token and one that is a sequence, the latter a little more frequent",
  "bytes that are sequences are taken to be half as frequent as they are",
  [(OB, "                byte_counts[seq.string[0] as usize] = stats.seq_counts[seq_id] as i64;\n", "                // A sequence takes at least two tokens.\n                byte_counts[seq.string[0] as usize] = stats.seq_counts[seq_id] as i64 / 2;\n")],
  demo='''
    #[test]
    fn vpdemo_bytes() {
        let dir = tempfile::tempdir().unwrap();
        let mut ts = TokenSet::new_bits4(Processing::Raw, true);
        ts.add_token(b"a");
        let text = format!("{}{}", "a".repeat(10), "b".repeat(16));
        let sampler = MemorySampler::from_str(&text, 1 << 20);
        let opt = optimize::Optimizer::new(17, Processing::Raw, TokenType::Bits4, None, dir.path());
        let stats = opt.optimize(&sampler, Some(ts));
        assert_eq!(stats.total_tokens, 36);
    }
''')

seed("m39", "C36", "a small frequency-based token set, where the best number of extension tokens depends on the lengths of the encodings",
  "the candidates are compared as if each encoding were one token shorter",
  [(OB, "                total += counts[seq.string[0] as usize].1 * seq.tokens.len() as u64;\n", "                // The first token is shared by the whole part.\n                total += counts[seq.string[0] as usize].1 * (seq.tokens.len() as u64 - 1);\n")],
  demo='''
    #[test]
    fn vpdemo_huff() {
        use crate::optimize_bytes::*;
        let text = "The quick brown fox jumps over the lazy dog, and then it goes to sleep. 0123456789 ABC.\n".repeat(3);
        let sampler = MemorySampler::from_str(&text, 1 << 20);
        let stats = batch_tokenize::tokenize_file(&TokenSet::new_bytes(Processing::Raw), &sampler, None);
        let token_set = HuffOptimizer::optimize_bytes(&stats, 10);
        let total = batch_tokenize::tokenize_file(&token_set, &sampler, None).total_tokens;
        assert!(total <= 513, "{}", total);
    }
''')
