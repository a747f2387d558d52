"""More cases: how single bytes are chosen (C36)."""
from cases import bug, same

O, OB = "optimize.rs", "optimize_bytes.rs"

COST = """    let mut byte_cost: [Option<u64>; 256] = [None; 256];

    for token in tokenset.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() == 1 {
                let byte = s[0];
                assert!(byte_cost[byte as usize].is_none());
                byte_cost[byte as usize] = Some(1);
            }
        }
    }

    for seq in tokenset.sequences.iter() {
        if seq.string.len() == 1 {
            let byte = seq.string[0];
            assert!(byte_cost[byte as usize].is_none());
            byte_cost[byte as usize] = Some(seq.tokens.len() as u64);
        }
    }
"""
TOTAL = """    let mut total = 0;

    for (i, token) in stats.token_set.tokens.iter().enumerate() {
        if let Token::Str(s) = token {
            if s.len() == 1 {
                let byte = s[0];
                total += byte_cost[byte as usize].unwrap() * stats.token_counts[i];
            }
        }
    }

    for (i, seq) in stats.token_set.sequences.iter().enumerate() {
        if seq.string.len() == 1 {
            let byte = seq.string[0];
            total += byte_cost[byte as usize].unwrap() * stats.seq_counts[i];
        }
    }

    total
}"""
COUNTS = """        let mut byte_counts: [i64; 256] = [0; 256];
        let mut single_byte_tokens = Vec::new();

        for (token_id, token) in stats.token_set.tokens.iter().enumerate() {
            if let Token::Str(s) = token {
                if s.len() == 1 {
                    byte_counts[s[0] as usize] = stats.token_counts[token_id] as i64;
                    single_byte_tokens.push(s.clone());
                }
            }
        }

        for (seq_id, seq) in stats.token_set.sequences.iter().enumerate() {
            if seq.string.len() == 1 {
                byte_counts[seq.string[0] as usize] = stats.seq_counts[seq_id] as i64;
            }
        }
"""
BYTES = """        let mut bytes = (0..=255).collect::<Vec<u8>>();
        bytes.sort_by_key(|&i| -byte_counts[i as usize]);
        let selected_bytes = &bytes[..n_byte_tokens];
"""
LOOP = """        for &byte in selected_bytes.iter() {
            new_token_set.add_token(&[byte]);
        }
"""
HC = """        let mut counts = (0..=255).map(|i| (i, 1)).collect::<Vec<(u8, u64)>>();
        for (token, count) in token_stats.token_set.tokens.iter().zip(token_stats.token_counts.iter()) {
            if let Token::Str(s) = token {
                if s.len() == 1 {
                    counts[s[0] as usize] = (s[0], count + 1);
                }
            }
        }

        for (seq, count) in token_stats.token_set.sequences.iter().zip(token_stats.seq_counts.iter()) {
            assert_eq!(seq.string.len(), 1);
            counts[seq.string[0] as usize] = (seq.string[0], count + 1);
        }
"""
HT = """            let mut total = 0;

            for token in token_set.tokens.iter() {
                if let Token::Str(s) = token {
                    assert_eq!(s.len(), 1);
                    total += counts[s[0] as usize].1
                }
            }

            for seq in token_set.sequences.iter() {
                assert_eq!(seq.string.len(), 1);
                total += counts[seq.string[0] as usize].1 * seq.tokens.len() as u64;
            }
"""
HB = """            if best_total_tokens.is_none() || total < best_total_tokens.unwrap() {
                best_token_set = Some(token_set);
                best_total_tokens = Some(total);
            }
        }
    
        let mut best_token_set = best_token_set.unwrap();
"""
HI = """        let mut best_token_set = None;
        let mut best_total_tokens = None;
"""
HX = """            let mut token_set = optimize_bytes_tokenset(&counts, n_byte_tokens, n_ext_tokens, token_stats.token_set.processing);
"""

# ---- the estimate
same("p36 cost zero for none", (O, COST, COST.replace("[Option<u64>; 256] = [None; 256]", "[u64; 256] = [0; 256]").replace("assert!(byte_cost[byte as usize].is_none());", "assert_eq!(byte_cost[byte as usize], 0);").replace("Some(1)", "1").replace("Some(seq.tokens.len() as u64)", "seq.tokens.len() as u64")), (O, TOTAL, TOTAL.replace(".unwrap()", "")))
same("p36 cost map", (O, COST, COST.replace("let mut byte_cost: [Option<u64>; 256] = [None; 256];", "let mut byte_cost: std::collections::HashMap<u8, u64> = std::collections::HashMap::new();")
     .replace("assert!(byte_cost[byte as usize].is_none());\n", "").replace("byte_cost[byte as usize] = Some(1)", "byte_cost.insert(byte, 1)").replace("byte_cost[byte as usize] = Some(seq.tokens.len() as u64)", "byte_cost.insert(byte, seq.tokens.len() as u64)")), (O, TOTAL, TOTAL.replace("byte_cost[byte as usize].unwrap()", "byte_cost[&byte]")))
same("p36 cost map get", (O, COST, COST.replace("let mut byte_cost: [Option<u64>; 256] = [None; 256];", "let mut byte_cost: std::collections::HashMap<u8, u64> = std::collections::HashMap::new();")
     .replace("assert!(byte_cost[byte as usize].is_none());\n", "").replace("byte_cost[byte as usize] = Some(1)", "byte_cost.insert(byte, 1)").replace("byte_cost[byte as usize] = Some(seq.tokens.len() as u64)", "byte_cost.insert(byte, seq.tokens.len() as u64)")), (O, TOTAL, TOTAL.replace("byte_cost[byte as usize].unwrap()", "byte_cost.get(&byte).unwrap()")))
same("p36 total zip", (O, TOTAL, """    let mut total = 0;

    for (token, count) in stats.token_set.tokens.iter().zip(stats.token_counts.iter()) {
        match token {
            Token::Str(s) if s.len() == 1 => total += count * byte_cost[s[0] as usize].unwrap(),
            _ => {}
        }
    }

    for (seq, &count) in stats.token_set.sequences.iter().zip(&stats.seq_counts) {
        if seq.string.len() != 1 {
            continue;
        }
        total += byte_cost[seq.string[0] as usize].unwrap() * count;
    }

    total
}"""))
same("p36 total sums", (O, TOTAL, """    let in_tokens: u64 = stats.token_set.tokens.iter().enumerate().map(|(i, token)| match token {
        Token::Str(s) if s.len() == 1 => byte_cost[s[0] as usize].unwrap() * stats.token_counts[i],
        _ => 0,
    }).sum();
    let in_seqs: u64 = stats.token_set.sequences.iter().zip(stats.seq_counts.iter())
        .filter(|(seq, _)| seq.string.len() == 1)
        .map(|(seq, count)| byte_cost[seq.string[0] as usize].unwrap() * count).sum();

    in_tokens + in_seqs
}"""))
same("p36 cost helper", (O, "fn count_tokens_in_bytes(tokenset: &TokenSet, stats: &TokenStats) -> u64 {\n" + COST, "fn byte_costs(tokenset: &TokenSet) -> [Option<u64>; 256] {\n" + COST + "    byte_cost\n}\n\nfn count_tokens_in_bytes(tokenset: &TokenSet, stats: &TokenStats) -> u64 {\n    let byte_cost = byte_costs(tokenset);\n"))
same("p36 seqs first", (O, TOTAL, """    let mut total = 0;

    for (i, seq) in stats.token_set.sequences.iter().enumerate() {
        if let [byte] = seq.string[..] {
            total += byte_cost[byte as usize].unwrap() * stats.seq_counts[i];
        }
    }

    for (i, token) in stats.token_set.tokens.iter().enumerate() {
        if let Token::Str(s) = token {
            if let [byte] = s[..] {
                total += byte_cost[byte as usize].unwrap() * stats.token_counts[i];
            }
        }
    }

    total
}"""))
same("p36 total while", (O, TOTAL, """    let mut total = 0;
    let mut i = 0;
    while i < stats.token_set.tokens.len() {
        if let Token::Str(s) = &stats.token_set.tokens[i] {
            if s.len() == 1 {
                let cost = byte_cost[s[0] as usize].expect("every byte has a cost");
                total += cost * stats.token_counts[i];
            }
        }
        i += 1;
    }
    for i in 0..stats.token_set.sequences.len() {
        let string = &stats.token_set.sequences[i].string;
        if string.len() == 1 {
            total += byte_cost[string[0] as usize].unwrap() * stats.seq_counts[i];
        }
    }
    total
}"""))
bug("p36 cost one", "C36", (O, "            byte_cost[byte as usize] = Some(seq.tokens.len() as u64);\n", "            byte_cost[byte as usize] = Some(seq.tokens.len() as u64 - 1);\n"))
bug("p36 cost of two", "C36", (O, "            total += byte_cost[byte as usize].unwrap() * stats.seq_counts[i];\n", "            total += byte_cost[byte as usize].unwrap().min(2) * stats.seq_counts[i];\n"))
bug("p36 estimate by token count", "C36", (O, "            total += byte_cost[byte as usize].unwrap() * stats.seq_counts[i];\n", "            total += byte_cost[byte as usize].unwrap() * stats.token_counts[i];\n"))
bug("p36 estimate without sequences", "C36", (O, TOTAL, TOTAL.replace("        if seq.string.len() == 1 {", "        if seq.string.len() == 1 && stats.seq_counts[i] > 1 {")))
bug("p36 costs of the old set", "C36", (O, "    for seq in tokenset.sequences.iter() {\n        if seq.string.len() == 1 {\n            let byte", "    for seq in stats.token_set.sequences.iter() {\n        if seq.string.len() == 1 {\n            let byte"), (O, "            assert!(byte_cost[byte as usize].is_none());\n            byte_cost[byte as usize] = Some(seq", "            byte_cost[byte as usize] = Some(seq"))
# ---- the bytes kept
same("p36 counts zip", (OB, COUNTS, """        let mut byte_counts: [i64; 256] = [0; 256];

        for (token, &count) in stats.token_set.tokens.iter().zip(stats.token_counts.iter()) {
            match token {
                Token::Str(s) if s.len() == 1 => byte_counts[s[0] as usize] = count as i64,
                _ => (),
            }
        }

        for (seq, &count) in stats.token_set.sequences.iter().zip(stats.seq_counts.iter()) {
            if seq.string.len() == 1 {
                byte_counts[seq.string[0] as usize] = count as i64;
            }
        }
"""))
same("p36 counts vec", (OB, COUNTS, COUNTS.replace("let mut byte_counts: [i64; 256] = [0; 256];\n        let mut single_byte_tokens = Vec::new();", "let mut byte_counts = vec![0u64; 256];").replace(" as i64;", ";").replace("                    single_byte_tokens.push(s.clone());\n", "")), (OB, BYTES, BYTES.replace("|&i| -byte_counts[i as usize]", "|&i| std::cmp::Reverse(byte_counts[i as usize])")))
same("p36 counts add", (OB, COUNTS, COUNTS.replace("byte_counts[s[0] as usize] = ", "byte_counts[s[0] as usize] += ").replace("byte_counts[seq.string[0] as usize] = ", "byte_counts[seq.string[0] as usize] += ")))
same("p36 sort by", (OB, BYTES, BYTES.replace("sort_by_key(|&i| -byte_counts[i as usize])", "sort_by(|&a, &b| byte_counts[b as usize].cmp(&byte_counts[a as usize]))")))
same("p36 take", (OB, BYTES, BYTES.replace("        let selected_bytes = &bytes[..n_byte_tokens];\n", "")), (OB, LOOP, """        for byte in bytes.into_iter().take(n_byte_tokens) {
            new_token_set.add_token(&[byte]);
        }
"""))
same("p36 truncate", (OB, BYTES, BYTES.replace("        let selected_bytes = &bytes[..n_byte_tokens];\n", "        bytes.truncate(n_byte_tokens);\n")), (OB, LOOP, LOOP.replace("selected_bytes.iter()", "bytes.iter()")))
same("p36 min later", (OB, "let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);", "let n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;"), (OB, BYTES, BYTES.replace("&bytes[..n_byte_tokens]", "&bytes[..n_byte_tokens.min(bytes.len())]")))
same("p36 sort pairs", (OB, BYTES, """        let mut by_count = byte_counts.iter().enumerate().map(|(i, &count)| (count, i as u8)).collect::<Vec<(i64, u8)>>();
        by_count.sort_by(|x, y| y.0.cmp(&x.0));
"""), (OB, LOOP, """        for &(_, byte) in by_count[..n_byte_tokens].iter() {
            new_token_set.add_token(&[byte]);
        }
"""))
same("p36 index loop", (OB, LOOP, """        for i in 0..n_byte_tokens {
            new_token_set.add_token(&bytes[i..i + 1]);
        }
"""), (OB, BYTES, BYTES.replace("        let selected_bytes = &bytes[..n_byte_tokens];\n", "")))
same("p36 count helper", (OB, COUNTS, "        let byte_counts = count_bytes(stats);\n"), (OB, "pub struct SimpleBytesOptimizer {}\n", "fn count_bytes(stats: &TokenStats) -> [i64; 256] {\n" + COUNTS.replace("        let mut single_byte_tokens = Vec::new();\n", "").replace("                    single_byte_tokens.push(s.clone());\n", "") + "        byte_counts\n}\n\npub struct SimpleBytesOptimizer {}\n"))
bug("p36 ascending", "C36", (OB, "        bytes.sort_by_key(|&i| -byte_counts[i as usize]);", "        bytes.sort_by_key(|&i| byte_counts[i as usize]);"))
bug("p36 without sequences", "C36", (OB, "                byte_counts[seq.string[0] as usize] = stats.seq_counts[seq_id] as i64;", "                byte_counts[seq.string[0] as usize] = stats.seq_counts[seq_id] as i64 / 2;"))
bug("p36 wrong counts", "C36", (OB, "stats.seq_counts[seq_id] as i64", "stats.token_counts[seq_id] as i64"))
bug("p36 one fewer", "C36", (OB, "let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);", "let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 255);"))
bug("p36 skip first", "C36", (OB, "        let selected_bytes = &bytes[..n_byte_tokens];\n", "        let skip = if n_byte_tokens < 255 { 1 } else { 0 };\n        let selected_bytes = &bytes[skip..n_byte_tokens + skip];\n"))
bug("p36 printable", "C36", (OB, "        let mut bytes = (0..=255).collect::<Vec<u8>>();\n        bytes.sort_by_key", "        let mut bytes = (0..=255).collect::<Vec<u8>>();\n        bytes.rotate_left(32);\n        bytes.sort_by_key"), (OB, "-byte_counts[i as usize]", "-byte_counts[i as usize] / 2"))
bug("p36 unstable key", "C36", (OB, "-byte_counts[i as usize]);", "-byte_counts[i as usize].min(1 << 20));"))
# ---- frequency-based sequences
same("p36 weights map", (OB, HC, """        let mut counts: Vec<(u8, u64)> = Vec::with_capacity(256);
        for i in 0..=255u8 {
            counts.push((i, 1));
        }
        for (i, token) in token_stats.token_set.tokens.iter().enumerate() {
            if let Token::Str(s) = token {
                if s.len() == 1 {
                    let byte = s[0];
                    counts[byte as usize] = (byte, 1 + token_stats.token_counts[i]);
                }
            }
        }
        for (i, seq) in token_stats.token_set.sequences.iter().enumerate() {
            let byte = seq.string[0];
            counts[byte as usize] = (byte, 1 + token_stats.seq_counts[i]);
        }
"""))
same("p36 weights in place", (OB, HC, HC.replace("counts[s[0] as usize] = (s[0], count + 1);", "counts[s[0] as usize].1 = count + 1;").replace("counts[seq.string[0] as usize] = (seq.string[0], count + 1);", "counts[seq.string[0] as usize].1 = count + 1;")))
same("p36 weights added", (OB, HC, HC.replace("counts[s[0] as usize] = (s[0], count + 1);", "counts[s[0] as usize].1 += count;").replace("counts[seq.string[0] as usize] = (seq.string[0], count + 1);", "counts[seq.string[0] as usize].1 += count;")))
same("p36 best match", (OB, HB, """            let better = match best_total_tokens {
                None => true,
                Some(best) => total < best,
            };
            if better {
                best_token_set = Some(token_set);
                best_total_tokens = Some(total);
            }
        }

        let mut best_token_set = best_token_set.unwrap();
"""))
same("p36 best max", (OB, HI, "        let mut best_token_set = None;\n        let mut best_total_tokens = u64::MAX;\n"), (OB, HB, """            if best_token_set.is_none() || total < best_total_tokens {
                best_token_set = Some(token_set);
                best_total_tokens = total;
            }
        }

        let mut best_token_set = best_token_set.unwrap();
"""))
same("p36 best pair", (OB, HI, "        let mut best: Option<(u64, TokenSet)> = None;\n"), (OB, HB, """            match &best {
                Some((least, _)) if total >= *least => {}
                _ => best = Some((total, token_set)),
            }
        }

        let (_, mut best_token_set) = best.unwrap();
"""))
same("p36 total helper", (OB, HT, "            let total = weighted_total(&token_set, &counts);\n"), (OB, "pub struct HuffOptimizer {}\n", "fn weighted_total(token_set: &TokenSet, counts: &[(u8, u64)]) -> u64 {\n" + HT + "            total\n}\n\npub struct HuffOptimizer {}\n"))
same("p36 total sum", (OB, HT, """            let in_tokens: u64 = token_set.tokens.iter().map(|token| match token {
                Token::Str(s) => counts[s[0] as usize].1,
                _ => 0,
            }).sum();
            let total = in_tokens + token_set.sequences.iter().map(|seq| seq.tokens.len() as u64 * counts[seq.string[0] as usize].1).sum::<u64>();
"""))
same("p36 collected", (OB, HI, "        let mut tried = Vec::new();\n"), (OB, HB, """            tried.push((total, token_set));
        }

        let (_, mut best_token_set) = tried.into_iter().min_by_key(|(total, _)| *total).unwrap();
"""))
bug("p36 last of equal", "C36", (OB, "total < best_total_tokens.unwrap() {", "total > best_total_tokens.unwrap() {"))
bug("p36 total unweighted", "C36", (OB, "                total += counts[seq.string[0] as usize].1 * seq.tokens.len() as u64;", "                total += counts[seq.string[0] as usize].1.min(1 << 16) * seq.tokens.len() as u64;"))
bug("p36 total without tokens", "C36", (OB, "                    total += counts[s[0] as usize].1\n", "                    total += counts[s[0] as usize].1 / 2\n"))
bug("p36 never updated", "C36", (OB, "                best_total_tokens = Some(total);\n", "                best_total_tokens = best_total_tokens.or(Some(total));\n"))
bug("p36 weights swapped", "C36", (OB, "            counts[seq.string[0] as usize] = (seq.string[0], count + 1);", "            counts[seq.string[0] as usize] = (seq.string[0], 1 + count / 2);"))
bug("p36 weight lost", "C36", (OB, "                    counts[s[0] as usize] = (s[0], count + 1);", "                    counts[s[0] as usize] = (s[0], (count + 1).min(255));"))
bug("p36 sequences only", "C36", (OB, "            assert_eq!(seq.string.len(), 1);\n            counts[", "            if seq.tokens.len() > 2 {\n                continue;\n            }\n            counts["))
