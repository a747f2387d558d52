"""More cases: how the optimiser chooses (C34, C35, C36)."""
from cases import bug, same

O, OB = "optimize.rs", "optimize_bytes.rs"

PAIRS = """    let mut pairs = (0..stats.pair_counts.len())
        .filter(|&i| stats.pair_counts[i] > 0)
        .collect::<Vec<usize>>();
    pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));
"""
SORT = "    pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));\n"
PICK = """    let mut new_token = Vec::new();
    let mut token_count = 0;

    for &pair_idx in pairs.iter() {
        let itoken1 = pair_idx / stats.ntokens();
        let itoken2 = pair_idx % stats.ntokens();

        let candidate = match (
            &stats.token_set.tokens[itoken1],
            &stats.token_set.tokens[itoken2],
        ) {
            (Token::Str(s1), Token::Str(s2)) => {
                s1.iter().chain(s2.iter()).cloned().collect::<Vec<u8>>()
            }
            _ => unreachable!(),
        };

        if is_valid_token(&candidate) {
            new_token = candidate;
            token_count = stats.pair_counts[pair_idx];
            break;
        }
    }
"""
NONE = """    if new_token.is_empty() {
        dbg!(&stats.token_set.tokens);
        dbg!(&stats.token_counts);
        dbg!(&stats.pair_counts);

        return None;
    }
"""
HEAD = "fn add_token_bpe(stats: &TokenStats) -> Option<(TokenSet, i64)> {\n"
JOIN = """fn joined(stats: &TokenStats, pair_idx: usize) -> Vec<u8> {
    let (i, j) = (pair_idx / stats.ntokens(), pair_idx % stats.ntokens());
    match (&stats.token_set.tokens[i], &stats.token_set.tokens[j]) {
        (Token::Str(s1), Token::Str(s2)) => [s1.as_slice(), s2.as_slice()].concat(),
        _ => unreachable!(),
    }
}

"""

same("p35 cmp", (O, SORT, "    pairs.sort_by(|&a, &b| stats.pair_counts[b].cmp(&stats.pair_counts[a]));\n"))
same("p35 reverse", (O, SORT, "    pairs.sort_by_key(|&i| std::cmp::Reverse(stats.pair_counts[i]));\n"))
same("p35 cached", (O, SORT, "    pairs.sort_by_cached_key(|&i| -(stats.pair_counts[i] as i64));\n"))
same("p35 tuples", (O, PAIRS, """    let mut pairs = stats.pair_counts.iter().enumerate()
        .filter(|(_, &c)| c > 0)
        .map(|(i, &c)| (std::cmp::Reverse(c), i))
        .collect::<Vec<_>>();
    pairs.sort();
    let pairs = pairs.into_iter().map(|(_, i)| i).collect::<Vec<usize>>();
"""))
same("p35 neg tuples", (O, PAIRS, """    let mut pairs = stats.pair_counts.iter().enumerate()
        .filter(|(_, &c)| c > 0)
        .map(|(i, &c)| (-(c as i64), i))
        .collect::<Vec<_>>();
    pairs.sort();
"""), (O, "    for &pair_idx in pairs.iter() {\n", "    for &(_, pair_idx) in pairs.iter() {\n"))
same("p35 count in pair", (O, PAIRS, """    let mut pairs: Vec<(usize, u64)> = stats.pair_counts.iter().copied().enumerate().filter(|&(_, c)| c != 0).collect();
    pairs.sort_by(|a, b| b.1.cmp(&a.1));
"""), (O, "    for &pair_idx in pairs.iter() {\n", "    for &(pair_idx, count) in pairs.iter() {\n"), (O, "            token_count = stats.pair_counts[pair_idx];\n", "            token_count = count;\n"))
same("p35 find", (O, HEAD, JOIN + HEAD), (O, PICK + "\n" + NONE, """    let pair_idx = pairs.iter().copied().find(|&i| is_valid_token(&joined(stats, i)))?;
    let new_token = joined(stats, pair_idx);
    let token_count = stats.pair_counts[pair_idx];
"""))
same("p35 filter next", (O, HEAD, JOIN + HEAD), (O, PICK + "\n" + NONE, """    let best = pairs.iter().map(|&i| (joined(stats, i), stats.pair_counts[i])).filter(|(s, _)| is_valid_token(s)).next();
    let Some((new_token, token_count)) = best else {
        return None;
    };
"""))
same("p35 min_by_key", (O, HEAD, JOIN + HEAD), (O, PAIRS + "\n" + PICK + "\n" + NONE, """    let pair_idx = (0..stats.pair_counts.len())
        .filter(|&i| stats.pair_counts[i] > 0)
        .filter(|&i| is_valid_token(&joined(stats, i)))
        .min_by_key(|&i| std::cmp::Reverse(stats.pair_counts[i]))?;
    let new_token = joined(stats, pair_idx);
    let token_count = stats.pair_counts[pair_idx];
"""))
same("p35 retain valid", (O, HEAD, JOIN + HEAD), (O, PAIRS + "\n" + PICK + "\n" + NONE, """    let mut pairs = (0..stats.pair_counts.len()).filter(|&i| stats.pair_counts[i] > 0).collect::<Vec<usize>>();
    pairs.retain(|&i| is_valid_token(&joined(stats, i)));
    pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));
    let pair_idx = *pairs.first()?;
    let new_token = joined(stats, pair_idx);
    let token_count = stats.pair_counts[pair_idx];
"""))
same("p35 scan idx", (O, HEAD, JOIN + HEAD), (O, PAIRS + "\n" + PICK + "\n" + NONE, """    let mut best: Option<usize> = None;
    for i in 0..stats.pair_counts.len() {
        if stats.pair_counts[i] == 0 {
            continue;
        }
        if let Some(b) = best {
            if stats.pair_counts[i] <= stats.pair_counts[b] {
                continue;
            }
        }
        if is_valid_token(&joined(stats, i)) {
            best = Some(i);
        }
    }
    let pair_idx = best?;
    let new_token = joined(stats, pair_idx);
    let token_count = stats.pair_counts[pair_idx];
"""))
same("p35 scan count", (O, HEAD, JOIN + HEAD), (O, PAIRS + "\n" + PICK + "\n" + NONE, """    let mut new_token = Vec::new();
    let mut token_count = 0;
    for (i, &count) in stats.pair_counts.iter().enumerate() {
        if count > token_count {
            let candidate = joined(stats, i);
            if is_valid_token(&candidate) {
                new_token = candidate;
                token_count = count;
            }
        }
    }
    if token_count == 0 {
        return None;
    }
"""))
same("p35 rows", (O, PAIRS, """    let n = stats.ntokens();
    let mut pairs = Vec::new();
    for (i, &count) in stats.pair_counts.iter().enumerate() {
        if count > 0 {
            pairs.push((i / n, i % n, count));
        }
    }
    pairs.sort_by_key(|&(_, _, count)| -(count as i64));
"""), (O, """    for &pair_idx in pairs.iter() {
        let itoken1 = pair_idx / stats.ntokens();
        let itoken2 = pair_idx % stats.ntokens();
""", "    for &(itoken1, itoken2, count) in pairs.iter() {\n"), (O, "            token_count = stats.pair_counts[pair_idx];\n", "            token_count = count;\n"))
same("p35 match add", (O, """        (Some((token_set_byte, byte_count)), Some((token_set_token, token_count))) => {
            if byte_count > token_count {
                Some(token_set_byte)
            } else {
                Some(token_set_token)
            }
        }
""", """        (Some((_, byte_gain)), Some((by_pair, pair_gain))) if byte_gain <= pair_gain => Some(by_pair),
        (Some((by_byte, _)), Some(_)) => Some(by_byte),
"""))
same("p35 early token", (O, """    match (maybe_tokenset_byte, maybe_tokenset_token) {
        (None, None) => None,
        (Some((new_token_set, _)), None) => Some(new_token_set),
        (None, Some((new_token_set, _))) => Some(new_token_set),
        (Some((token_set_byte, byte_count)), Some((token_set_token, token_count))) => {
            if byte_count > token_count {
                Some(token_set_byte)
            } else {
                Some(token_set_token)
            }
        }
    }
""", """    let mut candidates = Vec::new();
    candidates.extend(maybe_tokenset_token);
    candidates.extend(maybe_tokenset_byte);
    let mut best: Option<(TokenSet, i64)> = None;
    for candidate in candidates {
        if best.as_ref().map_or(true, |b| candidate.1 > b.1) {
            best = Some(candidate);
        }
    }
    best.map(|b| b.0)
"""))
same("p35 count pairs zip", (O, """    for (i, token) in stats.token_set.tokens.iter().enumerate() {
        if let Token::Str(s) = token {
            if s.len() == 1 {
                let byte = s[0];
                total += byte_cost[byte as usize].unwrap() * stats.token_counts[i];
            }
        }
    }
""", """    for (token, &count) in stats.token_set.tokens.iter().zip(&stats.token_counts) {
        match token {
            Token::Str(s) if s.len() == 1 => total += count * byte_cost[s[0] as usize].unwrap(),
            _ => {}
        }
    }
"""))
# the reverse: not the most frequent, not the right pair
bug("p35 ascending", "C35", (O, SORT, "    pairs.sort_by_key(|&i| stats.pair_counts[i] as i64);\n"))
bug("p35 i32", "C35", (O, SORT, "    pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i32));\n"))
bug("p35 other order", "C35", (O, "            (Token::Str(s1), Token::Str(s2)) => {\n", "            (Token::Str(s2), Token::Str(s1)) => {\n"))
bug("p35 long tokens", "C35", (O, "        let itoken2 = pair_idx % stats.ntokens();\n", "        let itoken2 = pair_idx % stats.token_set.tokens.len().max(256);\n"))
bug("p35 last", "C35", (O, "            break;\n        }\n    }\n\n    if new_token", "        }\n    }\n\n    if new_token"))
bug("p35 skip first", "C35", (O, "    for &pair_idx in pairs.iter() {\n", "    for &pair_idx in pairs.iter().skip(1) {\n"))
bug("p35 above one", "C35", (O, "        .filter(|&i| stats.pair_counts[i] > 0)\n", "        .filter(|&i| stats.pair_counts[i] > 1)\n"))
bug("p35 top 1000", "C35", (O, "    for &pair_idx in pairs.iter() {\n", "    for &pair_idx in pairs.iter().take(1000) {\n"))
bug("p35 no same", "C35", (O, "        .filter(|&i| stats.pair_counts[i] > 0)\n", "        .filter(|&i| stats.pair_counts[i] > 0 && i / stats.ntokens() != i % stats.ntokens())\n"))
bug("p35 count of first", "C35", (O, "            token_count = stats.pair_counts[pair_idx];\n", "            token_count = stats.pair_counts[pairs[0]];\n"))
bug("p35 token count", "C35", (O, "            token_count = stats.pair_counts[pair_idx];\n", "            token_count = stats.token_counts[itoken1];\n"))
bug("p35 smaller gain", "C35", (O, "            if byte_count > token_count {\n", "            if byte_count < token_count {\n"))
bug("p35 always token", "C35", (O, "            if byte_count > token_count {\n", "            if byte_count > token_count * 2 {\n"))
bug("p35 byte first", "C35", (O, "        (Some((token_set_byte, byte_count)), Some((token_set_token, token_count))) => {\n", "        (Some((token_set_byte, _)), Some(_)) if tokenset.ntokens() < 256 => Some(token_set_byte),\n        (Some((token_set_byte, byte_count)), Some((token_set_token, token_count))) => {\n"))
bug("p35 gain swapped", "C35", (O, "    Some((new_tokenset, old_count as i64 - new_count as i64))\n", "    Some((new_tokenset, new_count as i64 - old_count as i64))\n"))
bug("p35 gain of new", "C35", (O, "    let new_count = count_tokens_in_bytes(&new_tokenset, stats);\n", "    let new_count = count_tokens_in_bytes(&new_tokenset, stats) / 2;\n"))
bug("p35 cost one", "C36", (O, "            byte_cost[byte as usize] = Some(seq.tokens.len() as u64);\n", "            byte_cost[byte as usize] = Some(seq.tokens.len() as u64 - 1);\n"))
bug("p35 no sequences", "C36", (O, "            total += byte_cost[byte as usize].unwrap() * stats.seq_counts[i];\n", "            total += byte_cost[byte as usize].unwrap().min(2) * stats.seq_counts[i];\n"))
bug("p35 none at zero", "C34 C35", (O, "    if new_tokenset.ntokens() == stats.token_set.ntokens() {\n", "    if new_tokenset.ntokens() <= stats.token_set.ntokens() + 1 {\n"))

# ---- C34: a step gives up only when every single change was tried
REMV = """    let mut to_remove = vec![];
    for token in token_set.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() > 1 {
                to_remove.push(s.clone())
            }
        }
    }
    to_remove.sort_unstable_by_key(|s| removal_count.get(s).unwrap_or(&0));
"""
LOOPB = """        if let Some(newer_tokenset) = add_token(&new_token_set, bytes_optimizer, tokenizer_cache) {
            let newer_stats = tokenizer_cache.get_stats(&newer_tokenset);
            if newer_stats.total_tokens < stats.total_tokens {
                println!();
                println!("{}", show_tokenset_diff(token_set, &newer_tokenset));
                println!("processed bytes / token: {}", newer_stats.bytes_per_token());
                return Some(newer_stats);
            }
        }
"""
WHOLE = """    for s in to_remove {
        *removal_count.entry(s.clone()).or_insert(0) += 1;
        let mut new_token_set = token_set.clone();
        print!(" {}", show_bytes(s.as_slice()));
        std::io::stdout().flush().unwrap();
        let token_idx = new_token_set.find_token(&s).unwrap();
        new_token_set.remove_token(token_idx);
        assert!(new_token_set.ntokens() == ntokens - 1);

""" + LOOPB + """    }
"""
STEPLOOP = """    loop {
        if let Some(new_token_set) = optimization_step(
            &token_set,
            ntokens,
            bytes_optimizer,
            tokenizer_cache,
            &mut removal_count,
        ) {
            token_set = new_token_set;
            if Instant::now() - last_save > Duration::from_secs(60) {
                save_tokens(&token_set, tokens_dir);
                last_save = Instant::now();
            }
        } else {
            break;
        }
    }
"""
BYTE1 = """        let new_stats = tokenizer_cache.get_stats_with_pairs(&new_token_set);
        if let Some((new_token_set, _)) = add_token_bpe(&new_stats) {
            let new_stats = tokenizer_cache.get_stats(&new_token_set);
            if new_stats.total_tokens < stats.total_tokens {
                println!("{}", show_tokenset_diff(token_set, &new_token_set));
                println!("processed bytes / token: {}", new_stats.bytes_per_token());
                return Some(new_stats);
            }
        }
"""
same("p34 collected", (O, REMV, """    let mut to_remove = token_set
        .tokens
        .iter()
        .filter_map(|token| match token {
            Token::Str(s) if s.len() > 1 => Some(s.clone()),
            _ => None,
        })
        .collect::<Vec<_>>();
    to_remove.sort_unstable_by_key(|s| removal_count.get(s).copied().unwrap_or(0));
"""))
same("p34 borrowed", (O, REMV, """    let mut to_remove: Vec<&Vec<u8>> = Vec::new();
    for token in token_set.tokens.iter() {
        match token {
            Token::Str(s) if s.len() >= 2 => to_remove.push(s),
            _ => {}
        }
    }
    to_remove.sort_unstable_by_key(|s| removal_count.get(*s).unwrap_or(&0));
"""), (O, "        let token_idx = new_token_set.find_token(&s).unwrap();\n", "        let token_idx = new_token_set.find_token(s).unwrap();\n"))
same("p34 let else", (O, LOOPB, """        let Some(newer_tokenset) = add_token(&new_token_set, bytes_optimizer, tokenizer_cache) else {
            continue;
        };
        let newer_stats = tokenizer_cache.get_stats(&newer_tokenset);
        if newer_stats.total_tokens >= stats.total_tokens {
            continue;
        }
        println!();
        println!("{}", show_tokenset_diff(token_set, &newer_tokenset));
        println!("processed bytes / token: {}", newer_stats.bytes_per_token());
        return Some(newer_stats);
"""))
same("p34 helper", (O, LOOPB, """        if let Some(newer_stats) = better_with_one_more(&new_token_set, stats.total_tokens, bytes_optimizer, tokenizer_cache) {
            println!();
            println!("{}", show_tokenset_diff(token_set, &newer_stats.token_set));
            println!("processed bytes / token: {}", newer_stats.bytes_per_token());
            return Some(newer_stats);
        }
"""), (O, "fn remove_add_token<", """fn better_with_one_more<'a, S: Sampler<'a>, BO: BytesOptimizer>(
    token_set: &TokenSet,
    total: u64,
    bytes_optimizer: &BO,
    tokenizer_cache: &mut TokenizerCache<'a, S>,
) -> Option<TokenStats> {
    let grown = add_token(token_set, bytes_optimizer, tokenizer_cache)?;
    let stats = tokenizer_cache.get_stats(&grown);
    if stats.total_tokens < total {
        Some(stats)
    } else {
        None
    }
}

fn remove_add_token<"""))
same("p34 helper filter", (O, LOOPB, """        let better = add_token(&new_token_set, bytes_optimizer, tokenizer_cache)
            .map(|newer_tokenset| tokenizer_cache.get_stats(&newer_tokenset))
            .filter(|newer_stats| newer_stats.total_tokens < stats.total_tokens);
        if let Some(newer_stats) = better {
            println!();
            println!("{}", show_tokenset_diff(token_set, &newer_stats.token_set));
            println!("processed bytes / token: {}", newer_stats.bytes_per_token());
            return Some(newer_stats);
        }
"""))
same("p34 found", (O, WHOLE, WHOLE.replace("    for s in to_remove {", "    let mut found = None;\n    for s in to_remove {").replace("                return Some(newer_stats);", "                found = Some(newer_stats);\n                break;")),
     (O, "    println!();\n\n    None\n}\n\nfn optimization_step", "    if found.is_none() {\n        println!();\n    }\n\n    found\n}\n\nfn optimization_step"))
same("p34 without", (O, WHOLE, WHOLE.replace("""        let mut new_token_set = token_set.clone();
        print!(""", """        print!(""").replace("""        let token_idx = new_token_set.find_token(&s).unwrap();
        new_token_set.remove_token(token_idx);
""", "        let new_token_set = without(token_set, &s);\n")), (O, "fn remove_add_token<", """fn without(token_set: &TokenSet, s: &[u8]) -> TokenSet {
    let token_idx = token_set.find_token(s).unwrap();
    let mut smaller = token_set.clone();
    smaller.remove_token(token_idx);
    smaller
}

fn remove_add_token<"""))
same("p34 while pop", (O, REMV, REMV + "    to_remove.reverse();\n"), (O, WHOLE, WHOLE.replace("    for s in to_remove {", "    while let Some(s) = to_remove.pop() {")))
same("p34 flag", (O, STEPLOOP, """    let mut improved = true;
    while improved {
        match optimization_step(
            &token_set,
            ntokens,
            bytes_optimizer,
            tokenizer_cache,
            &mut removal_count,
        ) {
            Some(better) => {
                token_set = better;
                if last_save.elapsed() > Duration::from_secs(60) {
                    save_tokens(&token_set, tokens_dir);
                    last_save = Instant::now();
                }
            }
            None => improved = false,
        }
    }
"""))
same("p34 next", (O, STEPLOOP, """    let mut next = optimization_step(&token_set, ntokens, bytes_optimizer, tokenizer_cache, &mut removal_count);
    while let Some(better) = next {
        token_set = better;
        if Instant::now() - last_save > Duration::from_secs(60) {
            save_tokens(&token_set, tokens_dir);
            last_save = Instant::now();
        }
        next = optimization_step(&token_set, ntokens, bytes_optimizer, tokenizer_cache, &mut removal_count);
    }
"""))
same("p34 byte helper", (O, """            BO::optimize_bytes(&stats, token_set.ntokens() - token_set.n_long_tokens() - 1);
        assert!(new_token_set.ntokens() == ntokens - 1);
""" + BYTE1, """            BO::optimize_bytes(&stats, token_set.ntokens() - token_set.n_long_tokens() - 1);
        assert!(new_token_set.ntokens() == ntokens - 1);
        if let Some(new_stats) = pair_added(&new_token_set, tokenizer_cache) {
            if new_stats.total_tokens < stats.total_tokens {
                println!("{}", show_tokenset_diff(token_set, &new_stats.token_set));
                println!("processed bytes / token: {}", new_stats.bytes_per_token());
                return Some(new_stats);
            }
        }
"""), (O, "fn remove_add_token<", """fn pair_added<'a, S: Sampler<'a>>(
    token_set: &TokenSet,
    tokenizer_cache: &mut TokenizerCache<'a, S>,
) -> Option<TokenStats> {
    let stats = tokenizer_cache.get_stats_with_pairs(token_set);
    add_token_bpe(&stats).map(|(with_pair, _)| tokenizer_cache.get_stats(&with_pair))
}

fn remove_add_token<"""))
same("p34 match step", (O, """    if let Some(new_stats) = remove_add_token(
        token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        removal_count,
    ) {
        assert!(new_stats.token_set.ntokens() <= ntokens);
        return Some(new_stats.token_set);
    }
""", """    let new_stats = remove_add_token(token_set, ntokens, bytes_optimizer, tokenizer_cache, removal_count)?;
    assert!(new_stats.token_set.ntokens() <= ntokens);
    return Some(new_stats.token_set);
"""))
bug("p34 take", "C34", (O, "    for s in to_remove {\n", "    for s in to_remove.into_iter().take(256) {\n"))
bug("p34 break", "C34", (O, LOOPB, LOOPB.replace("        if let Some(newer_tokenset) = add_token(&new_token_set, bytes_optimizer, tokenizer_cache) {\n", "        let added = add_token(&new_token_set, bytes_optimizer, tokenizer_cache);\n        if added.is_none() {\n            break;\n        }\n        if let Some(newer_tokenset) = added {\n")))
bug("p34 tired", "C34", (O, "    for s in to_remove {\n", "    for s in to_remove {\n        if removal_count.get(&s).map_or(false, |&n| n > 20) {\n            continue;\n        }\n"))
bug("p34 longer", "C34", (O, "            if s.len() > 1 {\n                to_remove", "            if s.len() > 2 {\n                to_remove"))
bug("p34 one less", "C34", (O, "> token_set.min_bytes_ext_tokens() {", "> token_set.min_bytes_ext_tokens() + 1 {"))
bug("p34 least", "C34", ("tokenset.rs", "            TokenType::Bits2 => 4,\n", "            TokenType::Bits2 => 8,\n"))
bug("p34 half", "C34", (O, LOOPB, LOOPB + "        if removal_count.len() > 2 * ntokens {\n            break;\n        }\n"))
bug("p34 bytes only", "C34", (O, "                return Some(new_stats);\n            }\n        }\n    }\n\n    let mut to_remove", "                return Some(new_stats);\n            }\n            return None;\n        }\n    }\n\n    let mut to_remove"))
bug("p34 no new bytes", "C34", (O, "    if new_stats.total_tokens < stats.total_tokens {\n        println!(\"{}\", show_tokenset_diff(token_set, &new_token_set));\n        println!(\"processed bytes / token: {}\", new_stats.bytes_per_token());\n\n        return", "    if new_token_set.ntokens() < ntokens && new_stats.total_tokens < stats.total_tokens {\n        println!(\"{}\", show_tokenset_diff(token_set, &new_token_set));\n        println!(\"processed bytes / token: {}\", new_stats.bytes_per_token());\n\n        return"))
bug("p34 rounds", "C34", (O, "    loop {\n        if let Some(new_token_set) = optimization_step(", "    for _ in 0..10 * ntokens {\n        if let Some(new_token_set) = optimization_step("))
bug("p34 clock", "C34", (O, "                last_save = Instant::now();\n            }\n        } else {", "                last_save = Instant::now();\n                if removal_count.len() > 100000 {\n                    break;\n                }\n            }\n        } else {"))
bug("p34 early exit", "C34", (O, "        } else {\n            break;\n        }\n    }\n\n    token_set.sort();", "        } else {\n            break;\n        }\n        if removal_count.len() > 100000 {\n            break;\n        }\n    }\n\n    token_set.sort();"))
bug("p34 slack", "C34", (O, "            if newer_stats.total_tokens < stats.total_tokens {", "            if newer_stats.total_tokens + newer_stats.total_tokens / 1000 < stats.total_tokens {"))
bug("p34 pair only", "C34", (O, "        if let Some(newer_tokenset) = add_token(&new_token_set, bytes_optimizer, tokenizer_cache) {\n            let newer", "        let smaller = tokenizer_cache.get_stats_with_pairs(&new_token_set);\n        if let Some((newer_tokenset, _)) = add_token_bpe(&smaller) {\n            let newer"))
