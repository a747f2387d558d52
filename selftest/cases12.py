"""More refactorings of whole functions."""
from cases import bug, same
T, T2, O, PR, B, M, OB = "tokenset.rs", "tokenizer2.rs", "optimize.rs", "processing.rs", "batch_tokenize.rs", "main.rs", "optimize_bytes.rs"

BEST = """            let mut best_cost_state: Option<CostState> = None;
            let mut span_idx = state.span_idx;

            while span_idx != 0 {
                let span = &self.spans[span_idx];
                let prev_cost = cost_state[cost_state.len() - span.string.len()].cost;
                let cost = prev_cost + span.cost;
                if best_cost_state.is_none() || best_cost_state.unwrap().cost > cost {
                    best_cost_state = Some(CostState {
                        cost,
                        span: span_idx,
                    });
                }

                span_idx = span.suffix_span;
            }

            cost_state.push(best_cost_state.unwrap());
"""
same("r11 cheapest", (T2, BEST, """            let best = self.cheapest(state.span_idx, cost_state);
            cost_state.push(best);
"""), (T2, "    fn update_stats(&self", """    fn cheapest(&self, longest: usize, done: &[CostState]) -> CostState {
        let cost_of = |i: usize| done[done.len() - self.spans[i].string.len()].cost + self.spans[i].cost;
        let mut best = CostState { cost: cost_of(longest), span: longest };
        let mut i = self.spans[longest].suffix_span;
        while i != 0 {
            let cost = cost_of(i);
            if cost < best.cost {
                best = CostState { cost, span: i };
            }
            i = self.spans[i].suffix_span;
        }
        best
    }

    fn update_stats(&self"""))
same("r11 cheapest recursive option", (T2, BEST, """            let at = cost_state.len();
            let mut best = CostState { cost: u64::MAX, span: 0 };
            let mut span_idx = state.span_idx;
            loop {
                if span_idx == 0 {
                    break;
                }
                let span = &self.spans[span_idx];
                let cost = cost_state[at - span.string.len()].cost + span.cost;
                if cost < best.cost {
                    best.cost = cost;
                    best.span = span_idx;
                }
                span_idx = span.suffix_span;
            }
            assert!(best.span != 0);
            cost_state.push(best);
"""))
WALK = """        let mut span_counts = vec![0; self.spans.len()];
        let mut next_token = None;
        let mut pos = bytes.len();

        while pos > 0 {
            let span_idx = cost_state[pos].span;
            span_counts[span_idx] += 1;

            let span = &self.spans[span_idx];
            next_token = if let SpanContent::Token(token) = span.content {
                if let Some(next) = next_token {
                    let pair_id = token * ntokens + next;
                    stats.pair_counts[pair_id] += 1;
                }

                Some(token)
            } else {
                None
            };

            pos -= span.string.len();
        }
"""
same("r11 path first", (T2, WALK, """        let mut span_counts = vec![0; self.spans.len()];
        let mut path = Vec::new();
        let mut pos = bytes.len();
        while pos > 0 {
            let span_idx = cost_state[pos].span;
            path.push(span_idx);
            pos -= self.spans[span_idx].string.len();
        }
        let mut next_token = None;
        for &span_idx in path.iter() {
            span_counts[span_idx] += 1;
            let token = match self.spans[span_idx].content {
                SpanContent::Token(token) => Some(token),
                _ => None,
            };
            if let (Some(token), Some(next)) = (token, next_token) {
                stats.pair_counts[token * ntokens + next] += 1;
            }
            next_token = token;
        }
"""))
same("r11 walk match", (T2, WALK, """        let mut span_counts = vec![0; self.spans.len()];
        let mut next_token = None;
        let mut pos = bytes.len();

        while pos > 0 {
            let span_idx = cost_state[pos].span;
            span_counts[span_idx] += 1;

            let span = &self.spans[span_idx];
            let this_token = match span.content {
                SpanContent::Token(token) => Some(token),
                SpanContent::Sequence(_) | SpanContent::None => None,
            };
            match (this_token, next_token) {
                (Some(token), Some(next)) => stats.pair_counts[token * ntokens + next] += 1,
                _ => {}
            }
            next_token = this_token;
            pos -= span.string.len();
        }
"""))
same("r11 walk helper", (T2, WALK, """        let span_counts = self.count_spans(cost_state, bytes.len(), ntokens, &mut stats.pair_counts);
"""), (T2, "    fn update_stats(&self", """    fn count_spans(&self, cost_state: &[CostState], end: usize, ntokens: usize, pairs: &mut [u64]) -> Vec<u64> {
        let mut span_counts = vec![0; self.spans.len()];
        let mut next_token: Option<usize> = None;
        let mut pos = end;
        while pos != 0 {
            let span_idx = cost_state[pos].span;
            let span = &self.spans[span_idx];
            span_counts[span_idx] += 1;
            pos -= span.string.len();
            let SpanContent::Token(token) = span.content else {
                next_token = None;
                continue;
            };
            if let Some(next) = next_token {
                pairs[token * ntokens + next] += 1;
            }
            next_token = Some(token);
        }
        span_counts
    }

    fn update_stats(&self"""))
ADD = """        for span_idx in 1..self.spans.len() {
            let count = span_counts[span_idx];
            let span = &self.spans[span_idx];
"""
same("r11 counts zip", (T2, ADD, """        for (span_idx, (span, &count)) in self.spans.iter().zip(span_counts.iter()).enumerate().skip(1) {
"""))
same("r11 add span helper", (T2, """                spans.push(Span {
                    content: SpanContent::Token(idx),
                    string: string.clone(),
                    suffix_span: 0,
                    cost: 1,
                })
""", """                spans.push(Span::of(SpanContent::Token(idx), string, 1))
"""), (T2, """            spans.push(Span {
                content: SpanContent::Sequence(idx),
                string: seq.string.clone(),
                suffix_span: 0,
                cost: seq.tokens.len() as u64,
            })
""", """            spans.push(Span::of(SpanContent::Sequence(idx), &seq.string, seq.tokens.len()))
"""), (T2, "pub struct FragmentTokenizer {", """impl Span {
    fn of(content: SpanContent, string: &[u8], cost: usize) -> Span {
        Span { content, string: string.to_vec(), suffix_span: 0, cost: cost as u64 }
    }
}

pub struct FragmentTokenizer {"""))
same("r11 suffix find_map", (T2, """            for start in 1..=(span.string.len() - 1) {
                let suffix = &span.string[start..];
                if let Some(&idx) = span_by_str.get(suffix) {
                    span.suffix_span = idx;
                    break;
                }
            }
""", """            span.suffix_span = (1..span.string.len())
                .find_map(|start| span_by_str.get(&span.string[start..]).copied())
                .unwrap_or(0);
"""))
same("r11 longest suffix helper", (T2, """                let mut suffix_span = 0;

                for start in 0..span_prefix.len() {
                    if let Some(&idx) = span_by_str.get(&span_prefix[start..]) {
                        suffix_span = idx;
                        break;
                    }
                }
""", """                let suffix_span = Self::longest_suffix(&span_prefix, span_by_str);
"""), (T2, """                let mut suffix_id = 0;

                for start in 0..suffix.len() {
                    let suffix_suffix = &suffix[start..];

                    if let Some(&id) = state_by_str.get(suffix_suffix) {
                        suffix_id = id;
                        break;
                    }
                }
""", """                let suffix_id = Self::longest_suffix(&suffix, &state_by_str);
"""), (T2, "    pub fn process_slice", """    fn longest_suffix(string: &[u8], table: &HashMap<Vec<u8>, usize>) -> usize {
        for start in 0..string.len() {
            if let Some(&id) = table.get(&string[start..]) {
                return id;
            }
        }
        0
    }

    pub fn process_slice"""))
FWD = """        let mut span_counts = vec![0; self.spans.len()];
        let mut path = Vec::new();
        let mut pos = bytes.len();
        while pos > 0 {
            let span_idx = cost_state[pos].span;
            path.push(span_idx);
            pos -= self.spans[span_idx].string.len();
        }
        let mut prev_token = None;
        for &span_idx in path.iter().rev() {
            span_counts[span_idx] += 1;
            let token = match self.spans[span_idx].content {
                SpanContent::Token(token) => Some(token),
                _ => None,
            };
            if let (Some(prev), Some(token)) = (prev_token, token) {
                stats.pair_counts[prev * ntokens + token] += 1;
            }
            prev_token = token;
        }
"""
same("r11 path forward", (T2, WALK, FWD))
bug("p26 path forward turned", "C26", (T2, WALK, FWD.replace("prev * ntokens + token", "token * ntokens + prev")))
bug("p26 path forward through", "C26", (T2, WALK, FWD.replace("prev_token = token;", "prev_token = token.or(prev_token);")))
bug("p26 path skips the first", "C26", (T2, WALK, FWD.replace("path.iter().rev()", "path.iter().rev().skip(1)")))
bug("p26 path without repeats", "C26", (T2, WALK, FWD.replace("            path.push(span_idx);\n", "            if path.last() != Some(&span_idx) {\n                path.push(span_idx);\n            }\n")))
bug("p26 path turned", "C26", (T2, WALK, FWD.replace("path.iter().rev()", "path.iter()")))
COST = """    let mut byte_cost: [Option<u64>; 256] = [None; 256];

    for token in tokenset.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() == 1 {
                let byte = s[0];
                assert!(byte_cost[byte as usize].is_none());
                byte_cost[byte as usize] = Some(1);
            }
        }
    }

    for seq in tokenset.sequences.iter() {
        if seq.string.len() == 1 {
            let byte = seq.string[0];
            assert!(byte_cost[byte as usize].is_none());
            byte_cost[byte as usize] = Some(seq.tokens.len() as u64);
        }
    }
"""
same("r12 cost helper", (O, COST, "    let byte_cost = byte_costs(tokenset);\n"), (O, "fn count_tokens_in_bytes(", """fn byte_costs(tokenset: &TokenSet) -> [Option<u64>; 256] {
    let mut byte_cost = [None; 256];
    let mut set = |byte: u8, cost: u64| {
        let old = byte_cost[byte as usize].replace(cost);
        assert!(old.is_none());
    };
    for token in &tokenset.tokens {
        match token {
            Token::Str(s) if s.len() == 1 => set(s[0], 1),
            _ => {}
        }
    }
    for seq in &tokenset.sequences {
        if let [byte] = seq.string[..] {
            set(byte, seq.tokens.len() as u64);
        }
    }
    byte_cost
}

fn count_tokens_in_bytes("""))
same("r12 cost single byte", (O, COST, """    let mut byte_cost: [Option<u64>; 256] = [None; 256];
    let singles = tokenset.tokens.iter().filter_map(|token| match token {
        Token::Str(s) if s.len() == 1 => Some(s[0]),
        _ => None,
    });
    for byte in singles {
        assert!(byte_cost[byte as usize].is_none());
        byte_cost[byte as usize] = Some(1);
    }
    for seq in tokenset.sequences.iter().filter(|seq| seq.string.len() == 1) {
        let cell = &mut byte_cost[seq.string[0] as usize];
        assert!(cell.is_none());
        *cell = Some(seq.tokens.len() as u64);
    }
"""))
TOTAL = """    let mut total = 0;

    for (i, token) in stats.token_set.tokens.iter().enumerate() {
        if let Token::Str(s) = token {
            if s.len() == 1 {
                let byte = s[0];
                total += byte_cost[byte as usize].unwrap() * stats.token_counts[i];
            }
        }
    }

    for (i, seq) in stats.token_set.sequences.iter().enumerate() {
        if seq.string.len() == 1 {
            let byte = seq.string[0];
            total += byte_cost[byte as usize].unwrap() * stats.seq_counts[i];
        }
    }

    total
"""
same("r12 total zip", (O, TOTAL, """    let mut total = 0;
    for (token, &count) in stats.token_set.tokens.iter().zip(&stats.token_counts) {
        if let Token::Str(s) = token {
            if let [byte] = s.as_slice() {
                total += count * byte_cost[*byte as usize].unwrap();
            }
        }
    }
    for (seq, &count) in stats.token_set.sequences.iter().zip(&stats.seq_counts) {
        if let [byte] = seq.string.as_slice() {
            total += count * byte_cost[*byte as usize].unwrap();
        }
    }
    total
"""))
same("r12 total sums", (O, TOTAL, """    let in_tokens: u64 = stats
        .token_set
        .tokens
        .iter()
        .enumerate()
        .filter_map(|(i, token)| match token {
            Token::Str(s) if s.len() == 1 => Some(byte_cost[s[0] as usize].unwrap() * stats.token_counts[i]),
            _ => None,
        })
        .sum();
    let in_sequences: u64 = stats
        .token_set
        .sequences
        .iter()
        .enumerate()
        .filter(|(_, seq)| seq.string.len() == 1)
        .map(|(i, seq)| byte_cost[seq.string[0] as usize].unwrap() * stats.seq_counts[i])
        .sum();
    in_tokens + in_sequences
"""))
MATCH = """    match (maybe_tokenset_byte, maybe_tokenset_token) {
        (None, None) => None,
        (Some((new_token_set, _)), None) => Some(new_token_set),
        (None, Some((new_token_set, _))) => Some(new_token_set),
        (Some((token_set_byte, byte_count)), Some((token_set_token, token_count))) => {
            if byte_count > token_count {
                Some(token_set_byte)
            } else {
                Some(token_set_token)
            }
        }
    }
"""
same("r12 better of", (O, MATCH, """    let Some((token_set_byte, byte_count)) = maybe_tokenset_byte else {
        return maybe_tokenset_token.map(|(token_set, _)| token_set);
    };
    match maybe_tokenset_token {
        Some((token_set_token, token_count)) if token_count >= byte_count => Some(token_set_token),
        _ => Some(token_set_byte),
    }
"""))
same("r12 max by", (O, MATCH, """    [maybe_tokenset_byte, maybe_tokenset_token]
        .into_iter()
        .flatten()
        .max_by_key(|(_, gain)| *gain)
        .map(|(token_set, _)| token_set)
"""))
LONGS = """    let mut to_remove = vec![];
    for token in token_set.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() > 1 {
                to_remove.push(s.clone())
            }
        }
    }
    to_remove.sort_unstable_by_key"""
same("r12 longs", (O, LONGS, """    let mut to_remove: Vec<Vec<u8>> = token_set
        .tokens
        .iter()
        .filter_map(|token| match token {
            Token::Str(s) if s.len() > 1 => Some(s.to_vec()),
            _ => None,
        })
        .collect();
    to_remove.sort_by_key"""))
ACC = """                println!();
                println!("{}", show_tokenset_diff(token_set, &newer_tokenset));
                println!("processed bytes / token: {}", newer_stats.bytes_per_token());
                return Some(newer_stats);
            }
        }
    }
    println!();
"""
same("r12 report helper", (O, """            println!("{}", show_tokenset_diff(token_set, &new_tokenset));
            println!("processed bytes / token: {}", stats.bytes_per_token());
            return Some(stats);
""", "            report(token_set, &stats);\n            return Some(stats);\n"), (O, """                println!("{}", show_tokenset_diff(token_set, &new_token_set));
                println!("processed bytes / token: {}", new_stats.bytes_per_token());
                return Some(new_stats);
""", "                report(token_set, &new_stats);\n                return Some(new_stats);\n"), (O, """                println!("{}", show_tokenset_diff(token_set, &newer_tokenset));
                println!("processed bytes / token: {}", newer_stats.bytes_per_token());
""", "                report(token_set, &newer_stats);\n"), (O, "fn add_token_bpe(", """fn report(before: &TokenSet, stats: &TokenStats) {
    println!("{}", show_tokenset_diff(before, &stats.token_set));
    println!("processed bytes / token: {}", stats.bytes_per_token());
}

fn add_token_bpe("""))
same("r12 step question", (O, """    if let Some(new_stats) = remove_add_token(
        token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        removal_count,
    ) {
        assert!(new_stats.token_set.ntokens() <= ntokens);
        return Some(new_stats.token_set);
    }
""", """    let TokenStats { token_set: next, .. } =
        remove_add_token(token_set, ntokens, bytes_optimizer, tokenizer_cache, removal_count)?;
    assert!(next.ntokens() <= ntokens);
    if next.ntokens() > 0 {
        return Some(next);
    }
    unreachable!();
"""), (O, """    // if let Some(new_stats) = add_remove_token(token_set, ntokens, bytes_optimizer, tokenizer_cache)
    // {
    //     assert!(new_stats.token_set.ntokens() <= ntokens);
    //     return Some(new_stats.token_set);
    // }

    None
""", ""))
same("r12 replace helper", (O, """        let mut new_token_set = token_set.clone();
        print!(" {}", show_bytes(s.as_slice()));
        std::io::stdout().flush().unwrap();
        let token_idx = new_token_set.find_token(&s).unwrap();
        new_token_set.remove_token(token_idx);
        assert!(new_token_set.ntokens() == ntokens - 1);
""", """        print!(" {}", show_bytes(s.as_slice()));
        std::io::stdout().flush().unwrap();
        let new_token_set = without(token_set, &s);
        assert_eq!(new_token_set.ntokens() + 1, ntokens);
"""), (O, "fn add_token_bpe(", """fn without(token_set: &TokenSet, s: &[u8]) -> TokenSet {
    let mut smaller = token_set.clone();
    let at = smaller.find_token(s).expect("token to be removed");
    smaller.remove_token(at);
    smaller
}

fn add_token_bpe("""))
same("r12 bytes of set", (O, """    if token_set.ntokens() - token_set.n_long_tokens() > token_set.min_bytes_ext_tokens() {
        let new_token_set =
            BO::optimize_bytes(&stats, token_set.ntokens() - token_set.n_long_tokens() - 1);
""", """    let nbytes = ntokens - token_set.n_long_tokens();
    if token_set.min_bytes_ext_tokens() < nbytes {
        let new_token_set = BO::optimize_bytes(&stats, nbytes - 1);
"""))
PAIRS = """    let mut pairs = (0..stats.pair_counts.len())
        .filter(|&i| stats.pair_counts[i] > 0)
        .collect::<Vec<usize>>();
    pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));
"""
same("r12 pairs reverse", (O, PAIRS, """    let mut pairs: Vec<usize> = Vec::new();
    for (i, &count) in stats.pair_counts.iter().enumerate() {
        if count != 0 {
            pairs.push(i);
        }
    }
    pairs.sort_by(|&a, &b| stats.pair_counts[b].cmp(&stats.pair_counts[a]));
"""))
same("r12 pairs reverse key", (O, PAIRS, """    let mut pairs: Vec<usize> = stats
        .pair_counts
        .iter()
        .enumerate()
        .filter_map(|(i, &count)| (count > 0).then_some(i))
        .collect();
    pairs.sort_by_key(|&i| std::cmp::Reverse(stats.pair_counts[i]));
"""))
BEST2 = """    [maybe_tokenset_byte, maybe_tokenset_token]
        .into_iter()
        .flatten()
        .max_by_key(|(_, gain)| *gain)
        .map(|(token_set, _)| token_set)
"""
bug("p35 least gain", "C35", (O, MATCH, BEST2.replace("max_by", "min_by")))
bug("p35 gain turned", "C35", (O, MATCH, BEST2.replace("*gain", "-*gain")))
bug("p35 size as gain", "C35", (O, MATCH, BEST2.replace("|(_, gain)| *gain", "|(set, _)| set.ntokens()")))
bug("p34 only the byte", "C34", (O, MATCH, BEST2.replace("[maybe_tokenset_byte, maybe_tokenset_token]", "[maybe_tokenset_byte.filter(|x| x.1 > 0), maybe_tokenset_token.filter(|x| x.1 > 0)]")))
same("r13 worker while", (B, """    loop {
        let job = jobs_rx.lock().unwrap().recv();
        let data = {
            match job {
                Ok(ref sample) => sample.as_bytes(),
                Err(_) => break,
            }
        };

        assert!(!data.is_empty());
        tokenizer.process_slice(data, &mut stats, &mut buffer);
    }
""", """    loop {
        let received = {
            let rx = jobs_rx.lock().unwrap();
            rx.recv()
        };
        let Ok(sample) = received else {
            break;
        };
        let data = sample.as_bytes();
        assert_ne!(data.len(), 0);
        tokenizer.process_slice(data, &mut stats, &mut buffer);
    }
"""))
same("r13 next job helper", (B, """        let job = jobs_rx.lock().unwrap().recv();
        let data = {
            match job {
                Ok(ref sample) => sample.as_bytes(),
                Err(_) => break,
            }
        };
""", """        let job = match next_job(&jobs_rx) {
            Some(job) => job,
            None => break,
        };
        let data = job.as_bytes();
"""), (B, "fn worker(", """fn next_job<'s>(jobs: &Mutex<Receiver<Sample<'s>>>) -> Option<Sample<'s>> {
    jobs.lock().unwrap().recv().ok()
}

fn worker("""))
same("r13 parallel helper", (B, """    if sampler.total_size() < 1 << 25 {
        return tokenize_file_sync(token_set, sampler, initial_size);
    }

    let tokenizer""", """    const PARALLEL_FROM: u64 = 32 * 1024 * 1024;
    if sampler.total_size() >= PARALLEL_FROM {
        tokenize_file_parallel(token_set, sampler, initial_size)
    } else {
        tokenize_file_sync(token_set, sampler, initial_size)
    }
}

fn tokenize_file_parallel<'a, S: Sampler<'a>>(
    token_set: &TokenSet,
    sampler: &'a S,
    initial_size: Option<u64>,
) -> TokenStats {
    let tokenizer"""))
same("r13 join for", (B, """        while !join_handles.is_empty() {
            join_handles.pop().unwrap().join().unwrap();
        }
""", """        for handle in join_handles {
            handle.join().unwrap();
        }
"""))
same("r13 spawn collect", (B, """        let mut join_handles = Vec::new();

        for _ in 0..nthreads {
            let jobs_rx_clone = jobs_rx_shared.clone();
            let results_tx_clone = results_tx.clone();
            join_handles.push(s.spawn(|| worker(&tokenizer, jobs_rx_clone, results_tx_clone)));
        }
""", """        let tokenizer = &tokenizer;
        let mut join_handles: Vec<_> = (0..nthreads)
            .map(|_| {
                let jobs = Arc::clone(&jobs_rx_shared);
                let results = results_tx.clone();
                s.spawn(move || worker(tokenizer, jobs, results))
            })
            .collect();
"""))
same("r13 sorted helper", (B, """        let mut token_set = token_set.clone();
        token_set.sort();

        let stats = tokenize_file(&token_set, self.sampler, self.initial_size);
""", """        let token_set = in_order(token_set);

        let stats = tokenize_file(&token_set, self.sampler, self.initial_size);
"""), (B, """        let mut token_set = token_set.clone();
        token_set.sort();

        let key""", """        let token_set = in_order(token_set);

        let key"""), (B, "pub struct TokenizerCache", """fn in_order(token_set: &TokenSet) -> TokenSet {
    let mut sorted = token_set.clone();
    sorted.sort();
    sorted
}

pub struct TokenizerCache"""))
same("r13 word enum", (PR, """    if first.is_uppercase() {
        let lower_first = first.to_lowercase().to_string();
        let lower_word = word.to_lowercase();
        // Some letters (like 'İ' or 'ẞ') aren't restored by upper-casing.
        if rest.chars().all(|ch| ch.is_lowercase()) && lower_first.to_uppercase() == first.to_string() {
            out.push('\\x14');
            out.push_str(&lower_first);
            out.push_str(rest);
        } else if rest.chars().all(|ch| ch.is_uppercase()) && lower_word.to_uppercase() == word {
            out.push('\\x15');
            out.push_str(&lower_word);
        } else {
            out.push_str(word);
        }
    } else {
        out.push_str(word);
    }

    out.push('\\x16');
""", """    match fold(word, first, rest) {
        Some((marker, folded)) => {
            out.push(marker);
            out.push_str(&folded);
        }
        None => out.push_str(word),
    }
    out.push('\\x16');
"""), (PR, "fn add_word(", """fn fold(word: &str, first: char, rest: &str) -> Option<(char, String)> {
    if !first.is_uppercase() {
        return None;
    }
    let lower_first = first.to_lowercase().to_string();
    if rest.chars().all(char::is_lowercase) && lower_first.to_uppercase() == first.to_string() {
        return Some(('\\x14', lower_first + rest));
    }
    let lower_word = word.to_lowercase();
    if rest.chars().all(char::is_uppercase) && lower_word.to_uppercase() == word {
        return Some(('\\x15', lower_word));
    }
    None
}

fn add_word("""))
same("r13 state with word", (PR, """            (State::Word, CharType::Space) => {
                add_word(&mut out, &word);
                word.clear();
                State::SpaceAfterWord
            }
            (State::Word, CharType::NonLetter) => {
                add_word(&mut out, &word);
                word.clear();
                out.push(ch);
                State::NonWord
            }
""", """            (State::Word, kind @ (CharType::Space | CharType::NonLetter)) => {
                add_word(&mut out, &std::mem::take(&mut word));
                if let CharType::Space = kind {
                    State::SpaceAfterWord
                } else {
                    out.push(ch);
                    State::NonWord
                }
            }
"""))
same("r13 any letter first", (PR, """            (State::NonWord, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
""", ""), (PR, """            (State::Word, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
""", """            // Skipping the space, if any, since there was only one between the words.
            (State::NonWord | State::Word | State::SpaceAfterWord, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
"""), (PR, """            (State::SpaceAfterWord, CharType::Letter) => {
                // Skipping the space character, since there was only one space between the words.
                word.push(ch);
                State::Word
            }
""", ""))
PAIR = """        let mut min_pair_count = None;
        let mut best_idx = None;

        for i in 0..(nodes.len() - 1) {
            let pair_count = nodes[i].count + nodes[i + 1].count;
            if min_pair_count.is_none() || pair_count < min_pair_count.unwrap() {
                min_pair_count = Some(pair_count);
                best_idx = Some(i);
            }
        }
"""
SRC = open("/repo/src/optimize_bytes.rs").read()
a, b = SRC.index("        let mut min_pair_count = None;"), SRC.index("        let best_idx = best_idx.unwrap();")
PAIR = SRC[a:b]
same("r13 lightest pair", (OB, PAIR, "        let best_idx = lightest_pair(&nodes);\n\n"), (OB, "        let best_idx = best_idx.unwrap();\n", ""), (OB, "/// Finds an optimal split", """/// The first of the neighbouring pairs with the lowest total count.
fn lightest_pair(nodes: &[HuffmanNode]) -> usize {
    let weight = |i: usize| nodes[i].count + nodes[i + 1].count;
    let mut best = 0;
    for i in 1..nodes.len() - 1 {
        if weight(i) < weight(best) {
            best = i;
        }
    }
    best
}

/// Finds an optimal split"""))
same("r13 lightest windows", (OB, PAIR, """        let best_idx = nodes
            .windows(2)
            .enumerate()
            .min_by_key(|(_, pair)| pair[0].count + pair[1].count)
            .map(|(i, _)| i);
"""))
same("r13 lightest tuple", (OB, PAIR, """        let mut best: Option<(u64, usize)> = None;
        for (i, pair) in nodes.windows(2).enumerate() {
            let count = pair[0].count + pair[1].count;
            match best {
                Some((least, _)) if least <= count => {}
                _ => best = Some((count, i)),
            }
        }
        let best_idx = best.map(|(_, i)| i);
"""))
same("r13 slice helper", (OB, """        let counts_lo = counts.binary_search(&(split.lo, 0)).unwrap_err();
        let counts_hi = if i == splits.len() - 1 {
            counts.len()
        } else {
            counts.binary_search(&(splits[i + 1].lo, 0)).unwrap_err()
        };
""", """        let (counts_lo, counts_hi) = bounds(counts, &splits, i);
"""), (OB, """        let counts_lo = counts.binary_search(&(split.lo, 0)).unwrap_err();
        let counts_hi = if i == top_splits.len() - 1 {
            counts.len()
        } else {
            counts
                .binary_search(&(top_splits[i + 1].lo, 0))
                .unwrap_err()
        };
""", """        let (counts_lo, counts_hi) = bounds(counts, &top_splits, i);
"""), (OB, "/// Finds an optimal split", """fn bounds(counts: &[(u8, u64)], splits: &[CharsSplit], i: usize) -> (usize, usize) {
    let start = |split: &CharsSplit| counts.binary_search(&(split.lo, 0)).unwrap_err();
    let hi = splits.get(i + 1).map_or(counts.len(), start);
    (start(&splits[i]), hi)
}

/// Finds an optimal split"""))
same("r13 best pair of options", (OB, """            if best_total_tokens.is_none() || total < best_total_tokens.unwrap() {
                best_token_set = Some(token_set);
                best_total_tokens = Some(total);
            }
""", """            let better = match best_total_tokens {
                None => true,
                Some(best) => best > total,
            };
            if better {
                best_total_tokens.replace(total);
                best_token_set.replace(token_set);
            }
"""))
