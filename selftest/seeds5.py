PR = "src/processing.rs"
O = "src/optimize.rs"
OB = "src/optimize_bytes.rs"
T = "src/tokenset.rs"

REF = '''
    /// Reference: joins the two neighbouring parts that occur least until `parts` are left.
    fn split(counts: &[(u8, u64)], parts: usize) -> Vec<Vec<(u8, u64)>> {
        let mut groups: Vec<Vec<(u8, u64)>> = counts.iter().map(|&c| vec![c]).collect();
        let total = |g: &Vec<(u8, u64)>| g.iter().map(|c| c.1).sum::<u64>();
        while groups.len() > parts {
            let i = (0..groups.len() - 1).min_by_key(|&i| total(&groups[i]) + total(&groups[i + 1])).unwrap();
            let second = groups.remove(i + 1);
            groups[i].extend(second);
        }
        groups
    }

    fn cost(counts: &[(u8, u64)], parts: usize, ext: usize) -> u64 {
        let mut res = 0;
        for mut g in split(counts, parts) {
            let top = (0..g.len()).max_by_key(|&i| g[i].1).unwrap();
            res += g.remove(top).1;
            if g.len() <= ext {
                res += 2 * g.iter().map(|c| c.1).sum::<u64>();
            } else {
                res += g.iter().map(|c| c.1).sum::<u64>() + cost(&g, ext, ext);
            }
        }
        res
    }

    fn check(counts: Vec<u64>, n: usize) {
        use crate::optimize_bytes::*;
        let mut stats = stats2::TokenStats::new(TokenSet::new_bytes(Processing::Raw), None);
        stats.token_counts = counts.clone();
        let counts: Vec<(u8, u64)> = counts.iter().enumerate().map(|(i, &c)| (i as u8, c + 1)).collect();
        let ts = HuffOptimizer::optimize_bytes(&stats, n);
        let mut got = 0;
        for t in ts.tokens.iter() {
            if let tokenset::Token::Str(s) = t {
                got += counts[s[0] as usize].1;
            }
        }
        for s in ts.sequences.iter() {
            got += counts[s.string[0] as usize].1 * s.tokens.len() as u64;
        }
        let want = (2..=(n - 1).min(10)).map(|ext| cost(&counts, n - ext, ext)).min().unwrap();
        assert_eq!(got, want);
    }
'''

seed("m48", "C42", "byte counts above 2^32, i.e. more than 4 GiB of one byte or of two neighbours together",
  "the parts joined are not those that occur least, since their sum is compared modulo 2^32",
  [(OB, "            let pair_count = nodes[i].count + nodes[i + 1].count;", "            let pair_count = (nodes[i].count + nodes[i + 1].count) as u32;")],
  demo=REF + '''
    #[test]
    fn vpdemo_split() {
        let counts: Vec<u64> = (0..256u64).map(|i| (i * 7919 % 1009) * ((i * 31 % 17) << 30)).collect();
        check(counts, 40);
    }
''')

seed("m49", "C42", "a group with more occurrences in total than its neighbour, whose most frequent byte occurs less often",
  "the byte with the short code is taken from the half of a group that occurs more often in total",
  [(OB, "if first_split.top_count > second_split.top_count {", "if first.count > second.count {")],
  demo=REF + '''
    #[test]
    fn vpdemo_top() {
        let counts: Vec<u64> = (0..256u64).map(|i| if i % 9 == 0 { 40 } else if i % 9 < 5 { 13 } else { i * 31 % 7 }).collect();
        check(counts, 20);
    }
''')

seed("m50", "C44", "the type bits4 together with a processed data file, without a starting token set",
  "the token set made is not marked as splitting paragraphs when it is for processed data",
  [(O, "TokenSet::new_bits4(processing, true),", "TokenSet::new_bits4(processing, matches!(initial_size, None)),")],
  demo='''
    #[test]
    fn vpdemo_flag() {
        let dir = tempfile::tempdir().unwrap();
        let sampler = MemorySampler::from_str("some text, some more text", 1 << 20);
        for ty in [TokenType::Bits1, TokenType::Bits2, TokenType::Bits4, TokenType::Bytes] {
            let opt = optimize::Optimizer::new(258, Processing::Raw, ty, Some(25), dir.path());
            assert!(opt.optimize(&sampler, None).token_set.split_paragraphs);
        }
    }
''')

seed("m51", "C43", "a capitalised or all-caps word that begins with a letter outside ASCII",
  "the word is written as it is, without a marker",
  [(PR, "    if first.is_uppercase() {", "    if first.is_ascii_uppercase() {")],
  demo='''
    #[test]
    fn vpdemo_fold() {
        assert_eq!(processing::process("Über"), "\\x14über\\x16");
        assert_eq!(processing::process("ÉTÉ"), "\\x15été\\x16");
        assert_eq!(processing::process("Stra"), "\\x14stra\\x16");
    }
''')
