"""More refactorings in the style of somebody else: helpers extracted, statements reordered, loops rewritten."""
from cases import bug, same

T = "tokenset.rs"
O = "optimize.rs"
OB = "optimize_bytes.rs"
TK = "tokenizer2.rs"
BT = "batch_tokenize.rs"
P = "processing.rs"
M = "main.rs"
S2 = "stats2.rs"
U = "input/util.rs"
F = "input/file_sampler.rs"
MS = "input/memory_sampler.rs"
PS = "input/preloaded_sampler.rs"

# optimize.rs
same("r8 valid windows", (O, """    for i in 0..(s.len() - 2) {
        if s[i] == n && s[i + 1] == n && s[i + 2] != n {
            return false;
        }
    }

    true
""", """    !s.windows(3).any(|w| w[0] == n && w[1] == n && w[2] != n)
"""))
same("r8 valid helper", (O, "fn is_valid_token(s: &[u8]) -> bool {", """fn paragraph_break_at(s: &[u8], i: usize) -> bool {
    s[i] == b'\\n' && s[i + 1] == b'\\n' && s[i + 2] != b'\\n'
}

fn is_valid_token(s: &[u8]) -> bool {"""), (O, """    let n = "\\n".as_bytes()[0];
    for i in 0..(s.len() - 2) {
        if s[i] == n && s[i + 1] == n && s[i + 2] != n {
            return false;
        }
    }

    true
""", """    let mut i = 0;
    while i + 2 < s.len() {
        if paragraph_break_at(s, i) {
            return false;
        }
        i += 1;
    }
    true
"""))
same("r8 bpe candidate helper", (O, "fn add_token_bpe(", """fn join_tokens(first: &Token, second: &Token) -> Vec<u8> {
    match (first, second) {
        (Token::Str(a), Token::Str(b)) => {
            let mut joined = Vec::with_capacity(a.len() + b.len());
            joined.extend_from_slice(a);
            joined.extend_from_slice(b);
            joined
        }
        _ => unreachable!(),
    }
}

fn add_token_bpe("""), (O, """        let candidate = match (
            &stats.token_set.tokens[itoken1],
            &stats.token_set.tokens[itoken2],
        ) {
            (Token::Str(s1), Token::Str(s2)) => {
                s1.iter().chain(s2.iter()).cloned().collect::<Vec<u8>>()
            }
            _ => unreachable!(),
        };
""", """        let candidate = join_tokens(
            &stats.token_set.tokens[itoken1],
            &stats.token_set.tokens[itoken2],
        );
"""))
same("r8 bpe early return", (O, """        if is_valid_token(&candidate) {
            new_token = candidate;
            token_count = stats.pair_counts[pair_idx];
            break;
        }
    }
""", """        if !is_valid_token(&candidate) {
            continue;
        }
        new_token = candidate;
        token_count = stats.pair_counts[pair_idx];
        break;
    }
"""))
same("r8 bpe return in loop", (O, """    let mut new_token = Vec::new();
    let mut token_count = 0;

    for &pair_idx""", """    for &pair_idx"""), (O, """        if is_valid_token(&candidate) {
            new_token = candidate;
            token_count = stats.pair_counts[pair_idx];
            break;
        }
    }

    if new_token.is_empty() {
        dbg!(&stats.token_set.tokens);
        dbg!(&stats.token_counts);
        dbg!(&stats.pair_counts);

        return None;
    }

    let mut new_tokenset = stats.token_set.clone();
    new_tokenset.add_token(&new_token);

    Some((new_tokenset, token_count as i64))
""", """        if is_valid_token(&candidate) {
            let token_count = stats.pair_counts[pair_idx];
            let mut new_tokenset = stats.token_set.clone();
            new_tokenset.add_token(&candidate);
            return Some((new_tokenset, token_count as i64));
        }
    }

    dbg!(&stats.token_set.tokens);
    dbg!(&stats.token_counts);
    dbg!(&stats.pair_counts);

    None
"""))
same("r8 bpe concat", (O, "s1.iter().chain(s2.iter()).cloned().collect::<Vec<u8>>()", "[s1.as_slice(), s2.as_slice()].concat()"))
same("r8 bpe reverse sort", (O, "pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));", "pairs.sort_by_key(|&i| std::cmp::Reverse(stats.pair_counts[i]));"))
same("r8 bpe sort_by", (O, "pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));", "pairs.sort_by(|&a, &b| stats.pair_counts[b].cmp(&stats.pair_counts[a]));"))
same("r8 bpe pairs loop", (O, """    let mut pairs = (0..stats.pair_counts.len())
        .filter(|&i| stats.pair_counts[i] > 0)
        .collect::<Vec<usize>>();
""", """    let mut pairs: Vec<usize> = Vec::new();
    for (i, &count) in stats.pair_counts.iter().enumerate() {
        if count > 0 {
            pairs.push(i);
        }
    }
"""))
same("r8 bpe divmod helper", (O, """        let itoken1 = pair_idx / stats.ntokens();
        let itoken2 = pair_idx % stats.ntokens();
""", """        let ntokens = stats.ntokens();
        let itoken1 = pair_idx / ntokens;
        let itoken2 = pair_idx - itoken1 * ntokens;
"""))
same("r8 add_token ifs", (O, """    match (maybe_tokenset_byte, maybe_tokenset_token) {
        (None, None) => None,
        (Some((new_token_set, _)), None) => Some(new_token_set),
        (None, Some((new_token_set, _))) => Some(new_token_set),
        (Some((token_set_byte, byte_count)), Some((token_set_token, token_count))) => {
            if byte_count > token_count {
                Some(token_set_byte)
            } else {
                Some(token_set_token)
            }
        }
    }
""", """    let Some((token_set_byte, byte_count)) = maybe_tokenset_byte else {
        return maybe_tokenset_token.map(|(ts, _)| ts);
    };
    let Some((token_set_token, token_count)) = maybe_tokenset_token else {
        return Some(token_set_byte);
    };
    Some(if token_count >= byte_count { token_set_token } else { token_set_byte })
"""))
same("r8 add_token order", (O, """    let maybe_tokenset_byte = add_byte(&stats, bytes_optimizer);
    let maybe_tokenset_token = add_token_bpe(&stats);
""", """    let maybe_tokenset_token = add_token_bpe(&stats);
    let maybe_tokenset_byte = add_byte(&stats, bytes_optimizer);
"""))
same("r8 add_byte gain", (O, """    let old_count = count_tokens_in_bytes(&stats.token_set, stats);
    let new_tokenset""", """    let new_tokenset"""), (O, """    let new_count = count_tokens_in_bytes(&new_tokenset, stats);
    Some((new_tokenset, old_count as i64 - new_count as i64))""", """    let old_count = count_tokens_in_bytes(&stats.token_set, stats) as i64;
    let new_count = count_tokens_in_bytes(&new_tokenset, stats) as i64;
    let gain = old_count - new_count;
    Some((new_tokenset, gain))"""))
same("r8 count helper", (O, "fn count_tokens_in_bytes(", """fn byte_costs(tokenset: &TokenSet) -> [Option<u64>; 256] {
    let mut byte_cost: [Option<u64>; 256] = [None; 256];

    for token in tokenset.tokens.iter() {
        match token {
            Token::Str(s) if s.len() == 1 => {
                assert!(byte_cost[s[0] as usize].is_none());
                byte_cost[s[0] as usize] = Some(1);
            }
            _ => {}
        }
    }

    for seq in &tokenset.sequences {
        if seq.string.len() == 1 {
            let slot = &mut byte_cost[seq.string[0] as usize];
            assert!(slot.is_none());
            *slot = Some(seq.tokens.len() as u64);
        }
    }

    byte_cost
}

fn count_tokens_in_bytes("""), (O, """    let mut byte_cost: [Option<u64>; 256] = [None; 256];

    for token in tokenset.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() == 1 {
                let byte = s[0];
                assert!(byte_cost[byte as usize].is_none());
                byte_cost[byte as usize] = Some(1);
            }
        }
    }

    for seq in tokenset.sequences.iter() {
        if seq.string.len() == 1 {
            let byte = seq.string[0];
            assert!(byte_cost[byte as usize].is_none());
            byte_cost[byte as usize] = Some(seq.tokens.len() as u64);
        }
    }

""", "    let byte_cost = byte_costs(tokenset);\n\n"))
same("r8 count zip", (O, """    for (i, seq) in stats.token_set.sequences.iter().enumerate() {
        if seq.string.len() == 1 {
            let byte = seq.string[0];
            total += byte_cost[byte as usize].unwrap() * stats.seq_counts[i];
        }
    }
""", """    for (seq, count) in stats.token_set.sequences.iter().zip(&stats.seq_counts) {
        if let [byte] = seq.string.as_slice() {
            total += count * byte_cost[*byte as usize].unwrap();
        }
    }
"""))
same("r8 report helper", (O, "fn remove_add_token<", """fn report(before: &TokenSet, after: &TokenStats) {
    println!("{}", show_tokenset_diff(before, &after.token_set));
    println!("processed bytes / token: {}", after.bytes_per_token());
}

fn remove_add_token<"""), (O, """            println!("{}", show_tokenset_diff(token_set, &new_tokenset));
            println!("processed bytes / token: {}", stats.bytes_per_token());
            return Some(stats);""", """            report(token_set, &stats);
            return Some(stats);"""), (O, """                println!("{}", show_tokenset_diff(token_set, &newer_tokenset));
                println!("processed bytes / token: {}", newer_stats.bytes_per_token());
""", """                report(token_set, &newer_stats);
"""))
same("r8 step early", (O, """    if let Some(new_stats) = remove_add_token(
        token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        removal_count,
    ) {
        assert!(new_stats.token_set.ntokens() <= ntokens);
        return Some(new_stats.token_set);
    }
""", """    let changed = remove_add_token(
        token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        removal_count,
    )?;
    assert!(changed.token_set.ntokens() <= ntokens);
    return Some(changed.token_set);
"""), (O, """    //     return Some(new_stats.token_set);
    // }

    None
}
""", """    //     return Some(new_stats.token_set);
    // }
}
"""))
same("r8 long tokens helper", (O, "fn remove_add_token<", """fn long_tokens(token_set: &TokenSet) -> Vec<Vec<u8>> {
    token_set
        .tokens
        .iter()
        .filter_map(|token| match token {
            Token::Str(s) if s.len() > 1 => Some(s.to_vec()),
            _ => None,
        })
        .collect()
}

fn remove_add_token<"""), (O, """    let mut to_remove = vec![];
    for token in token_set.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() > 1 {
                to_remove.push(s.clone())
            }
        }
    }
""", """    let mut to_remove = long_tokens(token_set);
"""))
same("r8 without helper", (O, "fn remove_add_token<", """fn without_token(token_set: &TokenSet, s: &[u8]) -> TokenSet {
    let mut smaller = token_set.clone();
    let token_idx = smaller.find_token(s).unwrap();
    smaller.remove_token(token_idx);
    smaller
}

fn remove_add_token<"""), (O, """        let mut new_token_set = token_set.clone();
        print!(" {}", show_bytes(s.as_slice()));
        std::io::stdout().flush().unwrap();
        let token_idx = new_token_set.find_token(&s).unwrap();
        new_token_set.remove_token(token_idx);
""", """        print!(" {}", show_bytes(s.as_slice()));
        std::io::stdout().flush().unwrap();
        let new_token_set = without_token(token_set, &s);
"""))
same("r8 bytes step helper", (O, "fn remove_add_token<", """fn with_one_byte_less<BO: BytesOptimizer>(stats: &TokenStats, token_set: &TokenSet) -> TokenSet {
    let n_byte_ext = token_set.ntokens() - token_set.n_long_tokens();
    BO::optimize_bytes(stats, n_byte_ext - 1)
}

fn remove_add_token<"""), (O, """        let new_token_set =
            BO::optimize_bytes(&stats, token_set.ntokens() - token_set.n_long_tokens() - 1);
        assert!""", """        let new_token_set = with_one_byte_less::<BO>(&stats, token_set);
        assert!"""))
same("r8 impl while let", (O, """    loop {
        if let Some(new_token_set) = optimization_step(
            &token_set,
            ntokens,
            bytes_optimizer,
            tokenizer_cache,
            &mut removal_count,
        ) {
            token_set = new_token_set;
            if Instant::now() - last_save > Duration::from_secs(60) {
                save_tokens(&token_set, tokens_dir);
                last_save = Instant::now();
            }
        } else {
            break;
        }
    }
""", """    while let Some(better) = optimization_step(
        &token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        &mut removal_count,
    ) {
        token_set = better;
        if last_save.elapsed() > Duration::from_secs(60) {
            save_tokens(&token_set, tokens_dir);
            last_save = Instant::now();
        }
    }
"""))
same("r8 save every minute", (O, """            if Instant::now() - last_save > Duration::from_secs(60) {
                save_tokens(&token_set, tokens_dir);
                last_save = Instant::now();
            }
""", """            let now = Instant::now();
            if now.duration_since(last_save) > Duration::from_secs(60) {
                save_tokens(&token_set, tokens_dir);
                last_save = now;
            }
"""))
same("r8 initial fn", (O, """    let token_set = match (pretrained_token_set, token_type) {
        (Some(ts), _) => ts,
        (None, TokenType::Bits1) => TokenSet::new_bits1(processing, true),
        (None, TokenType::Bits2) => TokenSet::new_bits2(processing, true),
        (None, TokenType::Bits4) => TokenSet::new_bits4(processing, true),
        (None, TokenType::Bytes) => TokenSet::new_bytes(processing),
        (None, TokenType::BytesHuff) => {
            let token_set = TokenSet::new_bytes(processing);
            let stats = tokenizer_cache.get_stats(&token_set);
            HuffOptimizer::optimize_bytes(&stats, ntokens)
        }
    };
""", """    let token_set = match pretrained_token_set {
        Some(ts) => ts,
        None => match token_type {
            TokenType::Bits1 => TokenSet::new_bits1(processing, true),
            TokenType::Bits2 => TokenSet::new_bits2(processing, true),
            TokenType::Bits4 => TokenSet::new_bits4(processing, true),
            TokenType::Bytes => TokenSet::new_bytes(processing),
            TokenType::BytesHuff => {
                let all_bytes = TokenSet::new_bytes(processing);
                HuffOptimizer::optimize_bytes(&tokenizer_cache.get_stats(&all_bytes), ntokens)
            }
        },
    };
"""))
# optimize_bytes.rs
same("r8 simple map", (OB, """        let mut single_byte_tokens = Vec::new();

""", "\n"), (OB, """                    single_byte_tokens.push(s.clone());
""", ""))
same("r8 simple iter take", (OB, """        let selected_bytes = &bytes[..n_byte_tokens];
""", ""), (OB, "for &byte in selected_bytes.iter() {", "for &byte in bytes[..n_byte_tokens].iter() {"))
same("r8 long helper", (OB, "pub struct SimpleBytesOptimizer {}", """fn copy_long_tokens(from: &TokenSet, to: &mut TokenSet) {
    for token in from.tokens.iter() {
        match token {
            Token::Str(s) if s.len() > 1 => {
                to.add_token(s);
            }
            _ => {}
        }
    }
}

pub struct SimpleBytesOptimizer {}"""), (OB, """        for token in stats.token_set.tokens.iter() {
            if let Token::Str(s) = token {
                if s.len() > 1 {
                    new_token_set.add_token(s);
                }
            }
        }
""", """        copy_long_tokens(&stats.token_set, &mut new_token_set);
"""), (OB, """        for token in token_stats.token_set.tokens.iter() {
            if let Token::Str(s) = token {
                if s.len() > 1 {
                    best_token_set.add_token(s);
                }
            }
        }
""", """        copy_long_tokens(&token_stats.token_set, &mut best_token_set);
"""))
same("r8 huff total helper", (OB, "pub struct HuffOptimizer {}", """fn total_cost(token_set: &TokenSet, counts: &[(u8, u64)]) -> u64 {
    let mut total = 0;

    for token in token_set.tokens.iter() {
        if let Token::Str(s) = token {
            assert_eq!(s.len(), 1);
            total += counts[s[0] as usize].1
        }
    }

    for seq in token_set.sequences.iter() {
        assert_eq!(seq.string.len(), 1);
        total += counts[seq.string[0] as usize].1 * seq.tokens.len() as u64;
    }

    total
}

pub struct HuffOptimizer {}"""), (OB, """            let mut total = 0;

            for token in token_set.tokens.iter() {
                if let Token::Str(s) = token {
                    assert_eq!(s.len(), 1);
                    total += counts[s[0] as usize].1
                }
            }

            for seq in token_set.sequences.iter() {
                assert_eq!(seq.string.len(), 1);
                total += counts[seq.string[0] as usize].1 * seq.tokens.len() as u64;
            }
""", """            let total = total_cost(&token_set, &counts);
"""))
same("r8 huff counts helper", (OB, "pub struct HuffOptimizer {}", """fn smoothed_counts(token_stats: &TokenStats) -> Vec<(u8, u64)> {
    let mut counts = (0..=255).map(|i| (i, 1)).collect::<Vec<(u8, u64)>>();
    for (i, token) in token_stats.token_set.tokens.iter().enumerate() {
        if let Token::Str(s) = token {
            if s.len() == 1 {
                counts[s[0] as usize] = (s[0], token_stats.token_counts[i] + 1);
            }
        }
    }

    for (i, seq) in token_stats.token_set.sequences.iter().enumerate() {
        assert_eq!(seq.string.len(), 1);
        counts[seq.string[0] as usize].1 = token_stats.seq_counts[i] + 1;
    }
    counts
}

pub struct HuffOptimizer {}"""), (OB, """        let mut counts = (0..=255).map(|i| (i, 1)).collect::<Vec<(u8, u64)>>();
        for (token, count) in token_stats.token_set.tokens.iter().zip(token_stats.token_counts.iter()) {
            if let Token::Str(s) = token {
                if s.len() == 1 {
                    counts[s[0] as usize] = (s[0], count + 1);
                }
            }
        }

        for (seq, count) in token_stats.token_set.sequences.iter().zip(token_stats.seq_counts.iter()) {
            assert_eq!(seq.string.len(), 1);
            counts[seq.string[0] as usize] = (seq.string[0], count + 1);
        }
""", """        let counts = smoothed_counts(token_stats);
"""))
same("r8 split interval helper", (OB, "/// Optimizes the sequence suffixes for an interval of bytes.", """fn interval<'c>(counts: &'c [(u8, u64)], splits: &[CharsSplit], i: usize) -> &'c [(u8, u64)] {
    let lo = counts.binary_search(&(splits[i].lo, 0)).unwrap_err();
    let hi = match splits.get(i + 1) {
        Some(next) => counts.binary_search(&(next.lo, 0)).unwrap_err(),
        None => counts.len(),
    };
    &counts[lo..hi]
}

/// Optimizes the sequence suffixes for an interval of bytes."""), (OB, """        let counts_lo = counts.binary_search(&(split.lo, 0)).unwrap_err();
        let counts_hi = if i == splits.len() - 1 {
            counts.len()
        } else {
            counts.binary_search(&(splits[i + 1].lo, 0)).unwrap_err()
        };

        if counts_hi == counts_lo + 1 {
            continue;
        }

        let mut sub_counts = counts[counts_lo..counts_hi].to_vec();

        let top_idx""", """        let part = interval(counts, &splits, i);
        if part.len() == 1 {
            continue;
        }

        let mut sub_counts = part.to_vec();

        let top_idx"""))
same("r8 split merge helper", (OB, "/// Finds an optimal split of", """fn merge_nodes(first: HuffmanNode, second: HuffmanNode) -> HuffmanNode {
    HuffmanNode {
        count: first.count + second.count,
        content: HuffmanNodeContent::Internal(Box::new(first), Box::new(second)),
    }
}

/// Finds an optimal split of"""), (OB, """        let new_node = HuffmanNode {
            count: first.count + second.count,
            content: HuffmanNodeContent::Internal(Box::new(first), Box::new(second)),
        };
        nodes[best_idx] = new_node;
""", """        nodes[best_idx] = merge_nodes(first, second);
"""))
same("r8 split remove insert", (OB, """        let second = nodes.remove(best_idx + 1);
        let dummy = HuffmanNode {
            count: 0,
            content: HuffmanNodeContent::Leaf(0),
        };
        let first = mem::replace(&mut nodes[best_idx], dummy);
""", """        let first = nodes.remove(best_idx);
        let second = nodes.remove(best_idx);
"""), (OB, "        nodes[best_idx] = new_node;", "        nodes.insert(best_idx, new_node);"), (OB, "use std::mem;\n", "") if False else (OB, "        nodes.insert(best_idx, new_node);", "        nodes.insert(best_idx, new_node);\n        let _ = mem::size_of::<u8>();"))
same("r8 nodes collect", (OB, """    let mut nodes = Vec::new();
    for (ch, count) in counts {
        nodes.push(HuffmanNode {
            count: *count,
            content: HuffmanNodeContent::Leaf(*ch),
        });
    }
""", """    let mut nodes = counts
        .iter()
        .map(|&(ch, count)| HuffmanNode {
            count,
            content: HuffmanNodeContent::Leaf(ch),
        })
        .collect::<Vec<_>>();
"""), (OB, """    let mut splits = Vec::new();
    for node in nodes.iter() {
        splits.push(node_to_split(node));
    }

    splits
""", """    nodes.iter().map(node_to_split).collect()
"""))
# tokenizer2.rs
same("r8 tok suffix helper", (TK, "impl FragmentTokenizer {\n", """fn longest_known_suffix(known: &HashMap<Vec<u8>, usize>, s: &[u8]) -> usize {
    for start in 0..s.len() {
        if let Some(&idx) = known.get(&s[start..]) {
            return idx;
        }
    }
    0
}

impl FragmentTokenizer {
"""), (TK, """                let mut suffix_span = 0;

                for start in 0..span_prefix.len() {
                    if let Some(&idx) = span_by_str.get(&span_prefix[start..]) {
                        suffix_span = idx;
                        break;
                    }
                }
""", """                let suffix_span = longest_known_suffix(span_by_str, &span_prefix);
"""), (TK, """                let mut suffix_id = 0;

                for start in 0..suffix.len() {
                    let suffix_suffix = &suffix[start..];

                    if let Some(&id) = state_by_str.get(suffix_suffix) {
                        suffix_id = id;
                        break;
                    }
                }
""", """                let suffix_id = longest_known_suffix(&state_by_str, &suffix);
"""))
same("r8 tok best helper", (TK, "    pub fn process_slice(", """    /// The cheapest way to reach the current position.
    fn best_ending(&self, state: &SuffixState, cost_state: &[CostState]) -> CostState {
        let mut best: Option<CostState> = None;
        let mut span_idx = state.span_idx;

        while span_idx != 0 {
            let span = &self.spans[span_idx];
            let cost = cost_state[cost_state.len() - span.string.len()].cost + span.cost;
            if best.map_or(true, |b| b.cost > cost) {
                best = Some(CostState { cost, span: span_idx });
            }
            span_idx = span.suffix_span;
        }

        best.unwrap()
    }

    pub fn process_slice("""), (TK, """            let mut best_cost_state: Option<CostState> = None;
            let mut span_idx = state.span_idx;

            while span_idx != 0 {
                let span = &self.spans[span_idx];
                let prev_cost = cost_state[cost_state.len() - span.string.len()].cost;
                let cost = prev_cost + span.cost;
                if best_cost_state.is_none() || best_cost_state.unwrap().cost > cost {
                    best_cost_state = Some(CostState {
                        cost,
                        span: span_idx,
                    });
                }

                span_idx = span.suffix_span;
            }

            cost_state.push(best_cost_state.unwrap());
""", """            let best = self.best_ending(state, cost_state);
            cost_state.push(best);
"""))
same("r8 tok state idx", (TK, "        let mut state = &self.suffix_states[0];\n", "        let mut state_idx = 0;\n"), (TK, "            state = &self.suffix_states[state.next[byte as usize]];\n", "            state_idx = self.suffix_states[state_idx].next[byte as usize];\n            let state = &self.suffix_states[state_idx];\n"))
same("r8 tok stats split", (TK, "    fn update_stats(", """    fn add_counts(&self, span_counts: &[u64], stats: &mut TokenStats) {
        for (span, &count) in self.spans.iter().zip(span_counts).skip(1) {
            match span.content {
                SpanContent::Sequence(seq_id) => {
                    stats.seq_counts[seq_id] += count;
                    for &token_id in stats.token_set.sequences[seq_id].tokens.iter() {
                        stats.token_counts[token_id] += count;
                    }
                }
                SpanContent::Token(token_id) => stats.token_counts[token_id] += count,
                SpanContent::None => unreachable!(),
            }
        }
    }

    fn update_stats("""), (TK, """        for span_idx in 1..self.spans.len() {
            let count = span_counts[span_idx];
            let span = &self.spans[span_idx];
            match span.content {
                SpanContent::Sequence(seq_id) => {
                    stats.seq_counts[seq_id] += count;
                    let seq = &stats.token_set.sequences[seq_id];
                    for &token_id in seq.tokens.iter() {
                        stats.token_counts[token_id] += count;
                    }
                },
                SpanContent::Token(token_id) => {
                    stats.token_counts[token_id] += count
                },
                SpanContent::None => {
                    dbg!(cost_state);
                    dbg!(span_idx);
                    unreachable!()
                }
            }
        }
    }
""", """        self.add_counts(&span_counts, stats);
    }
"""))
same("r8 tok next match", (TK, """            next_token = if let SpanContent::Token(token) = span.content {
                if let Some(next) = next_token {
                    let pair_id = token * ntokens + next;
                    stats.pair_counts[pair_id] += 1;
                }

                Some(token)
            } else {
                None
            };
""", """            let token = match span.content {
                SpanContent::Token(token) => Some(token),
                _ => None,
            };
            if let (Some(first), Some(second)) = (token, next_token) {
                stats.pair_counts[first * ntokens + second] += 1;
            }
            next_token = token;
"""))
same("r8 tok totals after", (TK, """        stats.total_tokens += cost_state.last().unwrap().cost;
        stats.scanned_bytes += bytes.len() as u64;

        let ntokens""", """        let ntokens"""), (TK, """        for span_idx in 1..self.spans.len() {
            let count""", """        stats.scanned_bytes += bytes.len() as u64;
        stats.total_tokens += cost_state[bytes.len()].cost;

        for span_idx in 1..self.spans.len() {
            let count"""))
# batch_tokenize.rs
same("r8 cache entry", (BT, """        if let Some(stats) = self.cache.get(&key) {
            return stats.clone();
        }

        let mut stats = tokenize_file(&token_set, self.sampler, self.initial_size);
        stats.pair_counts.clear();
        stats.pair_counts.shrink_to_fit();
        self.cache.insert(key.clone(), stats.clone());
        stats
""", """        match self.cache.get(&key) {
            Some(stats) => stats.clone(),
            None => {
                let stats = tokenize_file(&token_set, self.sampler, self.initial_size).clone_without_pairs();
                self.cache.insert(key, stats.clone());
                stats
            }
        }
"""))
same("r8 cache sorted helper", (BT, "    fn get_key(", """    fn sorted(token_set: &TokenSet) -> TokenSet {
        let mut sorted = token_set.clone();
        sorted.sort();
        sorted
    }

    fn get_key("""), (BT, """        let mut token_set = token_set.clone();
        token_set.sort();

        let stats =""", """        let token_set = Self::sorted(token_set);

        let stats ="""), (BT, """        let mut token_set = token_set.clone();
        token_set.sort();

        let key =""", """        let token_set = Self::sorted(token_set);
        let key ="""))
same("r8 merge zip", (S2, """        for i in 0..self.token_counts.len() {
            self.token_counts[i] += other.token_counts[i];
        }
        for i in 0..self.seq_counts.len() {
            self.seq_counts[i] += other.seq_counts[i];
        }
        for i in 0..self.pair_counts.len() {
            self.pair_counts[i] += other.pair_counts[i];
        }
    }
}""", """        add_all(&mut self.token_counts, &other.token_counts);
        add_all(&mut self.seq_counts, &other.seq_counts);
        add_all(&mut self.pair_counts, &other.pair_counts);
    }
}

fn add_all(to: &mut [u64], from: &[u64]) {
    for (a, b) in to.iter_mut().zip(from.iter()) {
        *a += *b;
    }
}"""))
same("r8 worker while let", (BT, """    loop {
        let job = jobs_rx.lock().unwrap().recv();
        let data = {
            match job {
                Ok(ref sample) => sample.as_bytes(),
                Err(_) => break,
            }
        };

        assert!(!data.is_empty());
        tokenizer.process_slice(data, &mut stats, &mut buffer);
    }
""", """    loop {
        let job = jobs_rx.lock().unwrap().recv();
        let Ok(sample) = job else { break };
        let data = sample.as_bytes();
        assert!(!data.is_empty());
        tokenizer.process_slice(data, &mut stats, &mut buffer);
    }
"""))
same("r8 threads drain", (BT, """        while !join_handles.is_empty() {
            join_handles.pop().unwrap().join().unwrap();
        }
""", """        for handle in join_handles.drain(..) {
            handle.join().unwrap();
        }
"""))
same("r8 results take", (BT, """        for _ in 0..nthreads {
            let result = results_rx.recv().unwrap();
            stats.merge(&result);
        }
""", """        let mut received = 0;
        while received < nthreads {
            stats.merge(&results_rx.recv().unwrap());
            received += 1;
        }
"""))
# processing.rs
same("r8 proc flush helper", (P, "/// Processes the text by making", """fn finish_word(out: &mut String, word: &mut String) {
    add_word(out, word);
    word.clear();
}

/// Processes the text by making"""), (P, """                add_word(&mut out, &word);
                word.clear();
                State::SpaceAfterWord""", """                finish_word(&mut out, &mut word);
                State::SpaceAfterWord"""), (P, """                add_word(&mut out, &word);
                word.clear();
                out.push(ch);
                State::NonWord""", """                finish_word(&mut out, &mut word);
                out.push(ch);
                State::NonWord"""))
same("r8 proc type outer", (P, """            (State::NonWord, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
""", ""), (P, """            (State::Word, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
""", ""), (P, """            (State::SpaceAfterWord, CharType::Letter) => {
                // Skipping the space character, since there was only one space between the words.
                word.push(ch);
                State::Word
            }
""", """            (_, CharType::Letter) => {
                // Skipping the space character, if there was only one space between the words.
                word.push(ch);
                State::Word
            }
"""))
same("r8 proc word early", (P, """    if first.is_uppercase() {
        let lower_first""", """    if !first.is_uppercase() {
        out.push_str(word);
        out.push('\\x16');
        return;
    }

    {
        let lower_first"""), (P, """        } else {
            out.push_str(word);
        }
    } else {
        out.push_str(word);
    }

    out.push('\\x16');""", """        } else {
            out.push_str(word);
        }
    }

    out.push('\\x16');"""))
same("r8 proc chartype match", (P, """    if ch.is_alphabetic() {
        CharType::Letter
    } else if ch == ' ' {
        CharType::Space
    } else {
        CharType::NonLetter
    }
""", """    match ch {
        ' ' => CharType::Space,
        c if c.is_alphabetic() => CharType::Letter,
        _ => CharType::NonLetter,
    }
"""))
same("r8 proc file loop", (P, """    while reader.read_line(&mut line)? > 0 {
        let processed = process(&line);
        writer.write_all(processed.as_bytes())?;
        line.clear();
    }
""", """    loop {
        line.clear();
        let n = reader.read_line(&mut line)?;
        if n == 0 {
            break;
        }
        writer.write_all(process(&line).as_bytes())?;
    }
"""))
# inputs
same("r8 par rposition", (U, """    let mut pos = end;
    while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {
        pos -= 1;
    }

    if pos < 2 { end } else { pos }
""", """    let mut pos = end;
    while pos >= 2 {
        if data[pos - 1] == b'\\n' && data[pos - 2] == b'\\n' {
            return pos;
        }
        pos -= 1;
    }

    end
"""))
same("r8 par for rev", (U, """    let mut pos = end;
    while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {
        pos -= 1;
    }

    if pos < 2 { end } else { pos }
""", """    for pos in (2..=end).rev() {
        if data[pos - 1] == 10 && data[pos - 2] == 10 {
            return pos;
        }
    }

    end
"""))
same("r8 file iter short", (F, """        if let Some(chunks_selection) = self.max_samples {
            FileIterator {
                _sampler: self,
                file,
                sample_size: self.sample_size,
                file_size: self.file_size,
                samples_left: Some(chunks_selection),
            }
        } else {
            FileIterator {
                _sampler: self,
                file,
                sample_size: self.sample_size,
                file_size: self.file_size,
                samples_left: None,
            }
        }
""", """        FileIterator {
            _sampler: self,
            file,
            sample_size: self.sample_size,
            file_size: self.file_size,
            samples_left: self.max_samples,
        }
"""))
same("r8 file read helper", (F, "impl<'a> Iterator for FileIterator<'a> {", """fn back_up(file: &mut File, bytes: usize) {
    file.seek(SeekFrom::Current(-(bytes as i64))).unwrap();
}

impl<'a> Iterator for FileIterator<'a> {"""), (F, """                    self.file
                        .seek(SeekFrom::Current(end as i64 - read_bytes as i64))
                        .unwrap();
""", """                    back_up(&mut self.file, read_bytes - end);
"""))
same("r8 file vec macro", (F, """        let mut buffer = Vec::new();
        buffer.resize(self.sample_size, 0);
""", """        let mut buffer = vec![0u8; self.sample_size];
"""))
same("r8 mem early", (MS, """        if self.position < self.sampler.data.len() {
            let start = self.position;
            self.position =
                std::cmp::min(start + self.sampler.chunk_size, self.sampler.data.len());
            let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
            if self.position < self.sampler.data.len() && paragraph_end > start {
                self.position = paragraph_end;
            }
            Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
        } else {
            None
        }
""", """        let data = &self.sampler.data;
        let start = self.position;
        if start >= data.len() {
            return None;
        }
        let mut end = start + self.sampler.chunk_size;
        if end >= data.len() {
            end = data.len();
        } else {
            let paragraph_end = find_paragraph_end(data, end);
            if paragraph_end > start {
                end = paragraph_end;
            }
        }
        self.position = end;
        Some(Sample::from_bytes(&data[start..end]))
"""))
same("r8 mem share closure", (MS, """                if data.len() as f64 / (read_bytes as f64) < target_share {
                    data.extend_from_slice(&paragraph);
                }

                read_bytes""", """                if wanted(data.len(), read_bytes, target_share) {
                    data.extend_from_slice(&paragraph);
                }

                read_bytes"""), (MS, """        if data.len() as f64 / (read_bytes as f64) < target_share {
            data.extend_from_slice(&paragraph);
        }
""", """        if wanted(data.len(), read_bytes, target_share) {
            data.extend_from_slice(&paragraph);
        }
"""), (MS, "impl<'a> Sampler<'a> for MemorySampler {", """fn wanted(taken: usize, read: usize, target_share: f64) -> bool {
    (taken as f64) / (read as f64) < target_share
}

impl<'a> Sampler<'a> for MemorySampler {"""))
same("r8 pre valid always", (PS, """            if valid_chunk.len() == chunk.len() {
                chunks.push(chunk.to_vec());
            } else {
                chunks.push(valid_chunk.to_vec());
            };
""", """            chunks.push(valid_chunk.to_vec());
"""))
same("r8 pre get", (PS, """        if self.position < self.sampler.chunks.len() {
            let chunk = &self.sampler.chunks[self.position];
            self.position += 1;
            Some(Sample::from_bytes(chunk))
        } else {
            None
        }
""", """        let chunk = self.sampler.chunks.get(self.position)?;
        self.position += 1;
        Some(Sample::from_bytes(chunk))
"""))
# main.rs, tokenset.rs
same("r8 growing close", (M, """        if size > 1 << 24
            && (stats.bytes_per_token() - new_full_stats.bytes_per_token()).abs()
                / new_full_stats.bytes_per_token()
                < 0.005
        {
""", """        let full = new_full_stats.bytes_per_token();
        let diff = (stats.bytes_per_token() - full).abs() / full;
        if diff < 0.005 && size > 1 << 24 {
"""))
same("r8 growing loop", (M, "    while size < full_size {\n", "    loop {\n        if size >= full_size {\n            break;\n        }\n"), (M, "        size = std::cmp::max(1, size * 2);\n", "        size *= 2;\n        if size == 0 {\n            size = 1;\n        }\n"))
same("r8 save shared", (M, """    let output_path = tokens_dir_path.join(format!("{}.json", token_set.name()));
    println!("Writing the token set to {}.", output_path.display());
    let serialized = serde_json::to_string(&stats.to_json()).unwrap();
    std::fs::write(&output_path, serialized).unwrap();
""", """    save_tokens(&stats, tokens_dir_path);
"""))
same("r8 read token set", (M, """    let path = Path::new(filename);
    let input_tokens_file = File::open(path).expect("Input tokens file not found");
    let reader = BufReader::new(input_tokens_file);

    // Deserialize the JSON data into a serde_json::Value
    let tokenset_json: Value = serde_json::from_reader(reader).unwrap();
    TokenSet::from_json(tokenset_json)
""", """    let file = File::open(filename).expect("Input tokens file not found");
    let value = serde_json::from_reader::<_, Value>(BufReader::new(file)).unwrap();
    TokenSet::from_json(value)
"""))
same("r8 ts bits helper", (T, "    pub fn new_bits1(", """    fn digits(c: usize, n: usize, bits: usize) -> Vec<usize> {
        let mask = (1 << bits) - 1;
        (0..n).rev().map(|i| (c >> (i * bits)) & mask).collect()
    }

    pub fn new_bits1("""), (T, """            let mut rem = c;
            let mut bits = Vec::new();
            for _ in 0..8 {
                bits.push(rem & 1);
                rem >>= 1;
            }
            bits.reverse();
            token_set.add_sequence(vec![c as u8], bits);
""", """            token_set.add_sequence(vec![c as u8], Self::digits(c, 8, 1));
"""), (T, """            let mut rem = c;
            let mut digits = Vec::new();
            for _ in 0..4 {
                digits.push(rem & 3);
                rem >>= 2;
            }
            digits.reverse();
            token_set.add_sequence(vec![c as u8], digits);
""", """            token_set.add_sequence(vec![c as u8], Self::digits(c, 4, 2));
"""))
same("r8 ts read seq helper", (T, "    pub fn name(&self) -> String {", """    fn read_sequence(&self, seq: &Value) -> (Vec<u8>, Vec<usize>) {
        let Token::Str(string) = parse_token(&seq["string"]) else { panic!() };
        let tokens = seq["tokens"]
            .as_array()
            .unwrap()
            .iter()
            .map(|t| {
                let token = parse_token(t);
                self.tokens.iter().position(|x| *x == token).unwrap()
            })
            .collect();
        (string, tokens)
    }

    pub fn name(&self) -> String {"""), (T, """                let string = if let Token::Str(s) = parse_token(&seq["string"]) { s } else {panic!()};
                let mut tokens = Vec::new();
                for token in seq["tokens"].as_array().unwrap().iter() {
                    let token = parse_token(token);
                    let idx = token_set.tokens.iter().position(|x| x == &token).unwrap();
                    tokens.push(idx);
                }

""", """                let (string, tokens) = token_set.read_sequence(seq);
"""))
same("r8 ts remove swap", (T, """        let last_idx = self.tokens.len() - 1;

        if token_idx == last_idx {
            self.tokens.pop();
        } else {
            let last_token = self.tokens.pop().unwrap();
            self.tokens[token_idx] = last_token;

            for seq""", """        let last_idx = self.tokens.len() - 1;
        self.tokens.swap_remove(token_idx);

        if token_idx != last_idx {
            for seq"""))
same("r8 ts sort iter", (T, """            for i in 0..seq.tokens.len() {
                // println!("{} {}", i, seq.tokens[i], );
                seq.tokens[i] = new_indices[seq.tokens[i]];
            }
""", """            for token in seq.tokens.iter_mut() {
                *token = new_indices[*token];
            }
"""))
same("r8 ts type const", (T, """        let mut value = json!({
            "type": self.token_type,
            "processing": self.processing,
            "tokens": self.tokens.iter().map(|t| t.to_json()).collect::<Vec<_>>(),
            "split_paragraphs": self.split_paragraphs,
        });
""", """        let tokens: Vec<Value> = self.tokens.iter().map(Token::to_json).collect();
        let mut value = json!({
            "split_paragraphs": self.split_paragraphs,
            "processing": self.processing,
            "type": self.token_type,
            "tokens": tokens,
        });
"""))
same("r8 ts long matches", (T, """            .filter(|t| {
                if let Token::Str(s) = t {
                    s.len() > 1
                } else {
                    false
                }
            })
            .count()""", """            .filter(|t| matches!(t, Token::Str(s) if s.len() > 1))
            .count()"""))
