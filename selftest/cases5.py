"""Cases for growing samples (C37)."""
from cases import bug, same

M = "main.rs"
GROW = "        size = std::cmp::max(1, size * 2);\n"
NEXT = "        tokenset = Some(stats.token_set);\n\n"
TEST = """        if size > 1 << 24
            && (stats.bytes_per_token() - new_full_stats.bytes_per_token()).abs()
                / new_full_stats.bytes_per_token()
                < 0.005
        {
            println!("The difference is less than 0.5%. Stopping.");
            return new_full_stats;
        }
"""
LOOP = "    while size < full_size {\n        let sampler"
BIGGER = """        if let Some(tokenset) = tokenset.as_ref() {
            let stats = optimizer.get_stats(&sampler, tokenset);
            println!("bytes / token (bigger data): {}", stats.bytes_per_token());
        }

"""
END = "    optimizer.optimize(&full_sampler, tokenset)\n}"

bug("p37 zero stays", "C37", (M, GROW, "        size *= 2;\n"))
bug("p37 linear by share", "C37", (M, GROW, "        size += full_size / 100;\n"))
bug("p37 grows by half", "C37", (M, GROW, "        size = std::cmp::max(1, size + size / 2);\n"))
bug("p37 same size while better", "C37", (M, GROW, "        if new_full_stats.total_tokens > 0 {\n            size = std::cmp::max(1, size * 2);\n        }\n"), (M, "        let new_full_stats = optimizer.get_stats(&full_sampler, &stats.token_set);", "        let new_full_stats = optimizer.get_stats(&full_sampler, &stats.token_set);"))
bug("p37 set kept from the first", "C37", (M, "        let stats = optimizer.optimize(&sampler, tokenset);", "        let stats = optimizer.optimize(&sampler, tokenset.clone());"), (M, NEXT, "        if tokenset.is_none() {\n            tokenset = Some(stats.token_set);\n        }\n\n"))
bug("p37 set dropped", "C37", (M, "        let stats = optimizer.optimize(&sampler, tokenset);", "        let stats = optimizer.optimize(&sampler, tokenset.filter(|t| t.n_long_tokens() > 0));"))
bug("p37 fresh at the end", "C37 C30", (M, END, "    optimizer.optimize(&full_sampler, if size > 2 * full_size { None } else { tokenset })\n}"))
bug("p37 no abs", "C37", (M, "(stats.bytes_per_token() - new_full_stats.bytes_per_token()).abs()", "(stats.bytes_per_token() - new_full_stats.bytes_per_token())"))
bug("p37 five percent", "C37", (M, "                < 0.005\n", "                < 0.05\n"))
bug("p37 small sample", "C37", (M, "        if size > 1 << 24\n", "        if size > 1 << 14\n"))
bug("p37 or", "C37", (M, "            && (stats", "            || (stats"))
bug("p37 other difference", "C37", (M, "        println!(\"bytes / token (optimized): {}\", stats.bytes_per_token());\n", "        println!(\"bytes / token (optimized): {}\", stats.bytes_per_token());\n        let sample_stats = optimizer.get_stats(&sampler, &stats.token_set);\n"),
    (M, "            && (stats.bytes_per_token() - new_full_stats.bytes_per_token()).abs()", "            && (sample_stats.bytes_per_token() - stats.bytes_per_token()).abs()"))
bug("p37 half the data", "C37", (M, "    while size < full_size {", "    while size < full_size / 2 {"))
bug("p37 bounded rounds", "C37", (M, LOOP, "    let mut rounds = 0;\n    while size < full_size && rounds < 8 {\n        rounds += 1;\n        let sampler"))
bug("p37 stops with sample", "C37 C08", (M, END, "    let sampler = MemorySampler::sample_from_file(filename, full_size, 1 << 20);\n    optimizer.optimize(&sampler, tokenset)\n}"))
bug("p37 stops when no better", "C37", (M, TEST, TEST + """
        if let Some(previous) = tokenset_size {
            if previous <= new_full_stats.total_tokens {
                return new_full_stats;
            }
        }
        tokenset_size = Some(new_full_stats.total_tokens);
"""), (M, LOOP, "    let mut tokenset_size: Option<u64> = None;\n" + LOOP))
bug("p37 sample not of size", "C37 C30", (M, "MemorySampler::sample_from_file(filename, size, 1 << 20)", "MemorySampler::sample_from_file(filename, size.min(1 << 28), 1 << 20)"))
bug("p37 shrinks", "C37", (M, GROW, "        size = if size > full_size / 2 { size / 2 } else { std::cmp::max(1, size * 2) };\n"))
bug("p37 wraps", "C37", (M, GROW, "        size = std::cmp::max(1, (size as u32).wrapping_mul(2) as usize);\n"))

same("p37 loop break", (M, LOOP, "    loop {\n        if full_size <= size {\n            break;\n        }\n        let sampler"))
same("p37 if zero", (M, GROW, "        if size == 0 {\n            size = 1;\n        } else {\n            size *= 2;\n        }\n"))
same("p37 shift", (M, GROW, "        size = (size << 1).max(1);\n"))
same("p37 grow first", (M, NEXT + GROW, GROW + NEXT))
same("p37 grow by ten", (M, GROW, "        size = size * 10 + 1;\n"))
same("p37 named parts", (M, TEST, """        let on_sample = stats.bytes_per_token();
        let on_all = new_full_stats.bytes_per_token();
        let difference = (on_sample - on_all).abs() / on_all;
        let large = size > 1 << 24;
        if large && difference < 0.005 {
            println!("The difference is less than 0.5%. Stopping.");
            return new_full_stats;
        }
"""))
same("p37 nested ifs", (M, TEST, """        if size > 16 * 1024 * 1024 {
            let on_all = new_full_stats.bytes_per_token();
            if (on_all - stats.bytes_per_token()).abs() < 0.005 * on_all {
                println!("The difference is less than 0.5%. Stopping.");
                return new_full_stats;
            }
        }
"""))
same("p37 ratio", (M, TEST, """        if size > 1 << 24 && (stats.bytes_per_token() / new_full_stats.bytes_per_token() - 1.0).abs() < 0.005 {
            println!("The difference is less than 0.5%. Stopping.");
            return new_full_stats;
        }
"""))
same("p37 helper test", (M, TEST, """        if size > 1 << 24 && is_similar(&stats, &new_full_stats) {
            println!("The difference is less than 0.5%. Stopping.");
            return new_full_stats;
        }
"""), (M, "fn optimize_with_increasing_data(", """fn is_similar(a: &TokenStats, b: &TokenStats) -> bool {
    let difference = (a.bytes_per_token() - b.bytes_per_token()).abs();
    difference / b.bytes_per_token() < 0.005
}

fn optimize_with_increasing_data("""))
same("p37 round helper", (M, """        if let Some(tokenset) = tokenset.as_ref() {
            let stats = optimizer.get_stats(&sampler, tokenset);
            println!("bytes / token (bigger data): {}", stats.bytes_per_token());
        }

        let stats = optimizer.optimize(&sampler, tokenset);
        println!("bytes / token (optimized): {}", stats.bytes_per_token());
""", "        let stats = optimize_sample(optimizer, &sampler, tokenset);\n"), (M, "fn optimize_with_increasing_data(", """fn optimize_sample(optimizer: &optimize::Optimizer, sampler: &MemorySampler, tokenset: Option<TokenSet>) -> TokenStats {
    if let Some(tokenset) = tokenset.as_ref() {
        let stats = optimizer.get_stats(sampler, tokenset);
        println!("bytes / token (bigger data): {}", stats.bytes_per_token());
    }

    let stats = optimizer.optimize(sampler, tokenset);
    println!("bytes / token (optimized): {}", stats.bytes_per_token());
    stats
}

fn optimize_with_increasing_data("""))
same("p37 no report", (M, BIGGER, ""))
same("p37 break value", (M, LOOP, "    loop {\n        if size >= full_size {\n            break optimizer.optimize(&full_sampler, tokenset);\n        }\n        let sampler"),
     (M, "            return new_full_stats;\n", "            break new_full_stats;\n"), (M, GROW + "    }\n\n" + END, GROW + "    }\n}"))
same("p37 final in loop", (M, LOOP, "    loop {\n        if size >= full_size {\n            return optimizer.optimize(&full_sampler, tokenset);\n        }\n        let sampler"), (M, GROW + "    }\n\n" + END, GROW + "    }\n}"))
same("p37 set of measured", (M, NEXT, "        tokenset = Some(new_full_stats.token_set);\n\n"))
same("p37 shadowed", (M, "        let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);", "        let sample_size = size;\n        let sampler = MemorySampler::sample_from_file(filename, sample_size, 1 << 20);"))
same("p37 replace", (M, NEXT, "        tokenset.replace(stats.token_set);\n\n"), (M, "optimizer.optimize(&sampler, tokenset);", "optimizer.optimize(&sampler, tokenset.take());"))
same("p37 full from memory", (M, END, "    let whole = MemorySampler::from_file(filename, 1 << 24);\n    optimizer.optimize(&whole, tokenset)\n}"))
same("p37 u64 sizes", (M, "    let full_size = std::fs::metadata(filename).unwrap().len() as usize;", "    let full_size = std::fs::metadata(filename).unwrap().len();"), (M, "    while size < full_size {", "    while (size as u64) < full_size {"))

# ---- other crashes and mix-ups of the optimiser
O, OB, TS = "optimize.rs", "optimize_bytes.rs", "tokenset.rs"
bug("p28 huff token length", "C28", (OB, "                    assert_eq!(s.len(), 1);\n", "                    assert_eq!(s.len(), 2);\n"))
bug("p28 huff sequence length", "C28", (OB, "                assert_eq!(seq.string.len(), 1);\n                total", "                assert!(seq.string.len() > 1);\n                total"))
bug("p28 huff given sequence", "C28", (OB, "            assert_eq!(seq.string.len(), 1);\n            counts", "            assert_ne!(seq.string.len(), 1);\n            counts"))
bug("p28 huff given token", "C28", (OB, "                if s.len() == 1 {\n                    counts[s[0]", "                assert_eq!(s.len(), 1);\n                {\n                    counts[s[0]"))
bug("p28 huff least", "C28", (OB, "min(n_byte_ext_tokens - 1, 10)", "min(n_byte_ext_tokens - 2, 10)"))
bug("p28 huff least range", "C28", (OB, "for n_ext_tokens in 2..=max_ext_tokens", "for n_ext_tokens in 2..max_ext_tokens"))
bug("p28 bits1 unknown", "C28", (OB, "            TokenType::Bits1 => {\n", "            TokenType::Bits2 => {\n"))
bug("p28 bits4 unknown", "C28", (OB, "            TokenType::Bits4 => {\n", "            TokenType::BytesHuff => {\n"))
bug("p28 one byte too few", "C28", (O, "n_long_tokens() > token_set.min_bytes_ext_tokens()", "n_long_tokens() >= token_set.min_bytes_ext_tokens()"))
bug("p28 least of bits2", "C28", (TS, "            TokenType::Bits2 => 4,\n            TokenType::Bits4 => 16,", "            TokenType::Bits2 => 3,\n            TokenType::Bits4 => 16,"))
bug("p28 least of huff", "C28", (TS, "            TokenType::BytesHuff => 3,", "            TokenType::BytesHuff => 2,"))
bug("p30 optimisers swapped", "C30", (O, "let noop_bytes_optimizer = NoopBytesOptimizer {};", "let noop_bytes_optimizer = HuffOptimizer {};"))
bug("p34 huff never moves", "C34", (O, "            let bytes_optimizer = HuffOptimizer {};", "            let bytes_optimizer = NoopBytesOptimizer {};"))
IMPL = """            optimize_tokenset_impl(
                token_set,
                ntokens,
                &%s,
                &mut tokenizer_cache,
                tokens_dir,
            )"""
same("p28 asserts gone", (OB, "            assert_eq!(seq.string.len(), 1);\n            counts", "            counts"), (OB, "                    assert_eq!(s.len(), 1);\n", ""))
same("p28 asserts nonempty", (OB, "            assert_eq!(seq.string.len(), 1);\n            counts", "            debug_assert!(!seq.string.is_empty());\n            counts"), (OB, "                    assert_eq!(s.len(), 1);\n", "                    assert!(s.len() < 2);\n"))
same("p28 turbofish", (O, "fn optimize_tokenset_impl<'a, S: Sampler<'a>, BO: BytesOptimizer>(\n    mut token_set: TokenSet,\n    ntokens: usize,\n    bytes_optimizer: &BO,\n", "fn optimize_tokenset_impl<'a, S: Sampler<'a>, BO: BytesOptimizer + Default>(\n    mut token_set: TokenSet,\n    ntokens: usize,\n"),
     (O, "    let mut removal_count = HashMap::new();\n    let mut last", "    let bytes_optimizer = &BO::default();\n    let mut removal_count = HashMap::new();\n    let mut last"),
     *[(O, IMPL % x, (IMPL % x).replace("                &%s,\n" % x, "").replace("impl(", "impl::<S, %s>(" % t)) for x, t in (("bytes_optimizer", "SimpleBytesOptimizer"), ("noop_bytes_optimizer", "NoopBytesOptimizer"), ("bytes_optimizer", "HuffOptimizer"))],
     *[(OB, "pub struct %s {}" % t, "#[derive(Default)]\npub struct %s {}" % t) for t in ("SimpleBytesOptimizer", "NoopBytesOptimizer", "HuffOptimizer")])
same("p28 dispatch ifs", (O, "        TokenType::Bits1 | TokenType::Bits2 | TokenType::Bits4 => {\n", "        t if !matches!(t, TokenType::Bytes | TokenType::BytesHuff) => {\n"), (O, "        TokenType::BytesHuff => {\n            let bytes_optimizer = HuffOptimizer {};", "        _ => {\n            let bytes_optimizer = HuffOptimizer {};"))
same("p28 dispatch helper", (O, "pub fn optimize_tokenset<'a, S", """fn run_huff<'a, S: Sampler<'a>>(token_set: TokenSet, ntokens: usize, cache: &mut TokenizerCache<'a, S>, dir: &Path) -> TokenStats {
    optimize_tokenset_impl(token_set, ntokens, &HuffOptimizer {}, cache, dir)
}

pub fn optimize_tokenset<'a, S"""), (O, """            let bytes_optimizer = HuffOptimizer {};
""" + IMPL % "bytes_optimizer", "            run_huff(token_set, ntokens, &mut tokenizer_cache, tokens_dir)"))
same("p28 min by match", (O, "n_long_tokens() > token_set.min_bytes_ext_tokens()", "n_long_tokens() >= token_set.min_bytes_ext_tokens() + 1"))
same("p28 free bytes", (O, "    if token_set.ntokens() - token_set.n_long_tokens() > token_set.min_bytes_ext_tokens() {\n        let new_token_set =\n            BO::optimize_bytes(&stats, token_set.ntokens() - token_set.n_long_tokens() - 1);", "    let n_short = token_set.ntokens() - token_set.n_long_tokens();\n    if n_short > token_set.min_bytes_ext_tokens() {\n        let new_token_set = BO::optimize_bytes(&stats, n_short - 1);"))
