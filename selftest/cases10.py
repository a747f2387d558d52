"""Bugs in what new properties say: frequency-based splits, announced sizes, reports, new sets."""
from cases import bug, same

T = "tokenset.rs"
O = "optimize.rs"
OB = "optimize_bytes.rs"
MS = "input/memory_sampler.rs"
F = "input/file_sampler.rs"
PS = "input/preloaded_sampler.rs"

bug("p42 top least", "C42", (OB, "if first_split.top_count > second_split.top_count {", "if first_split.top_count < second_split.top_count {"))
bug("p42 top count", "C42", (OB, "                (first_split.top, first_split.top_count)", "                (first_split.top, second_split.top_count)"))
bug("p42 top always second", "C42", (OB, "if first_split.top_count > second_split.top_count {", "if first_split.top_count > 2 * second_split.top_count {"))
bug("p42 leaf count", "C42", (OB, "            top_count: node.count,", "            top_count: node.count.min(255),"))
bug("p42 greatest pair", "C42", (OB, "pair_count < min_pair_count.unwrap() {", "pair_count > min_pair_count.unwrap() {"))
bug("p42 pair first only", "C42", (OB, "            let pair_count = nodes[i].count + nodes[i + 1].count;", "            let pair_count = nodes[i].count.max(nodes[i + 1].count);"))
bug("p42 count lost", "C42", (OB, "            count: first.count + second.count,", "            count: first.count.max(second.count),"))
bug("p42 pairs skipped", "C42", (OB, "        for i in 0..(nodes.len() - 1) {", "        for i in 0..(nodes.len() - 1).min(64) {"))
bug("p42 node count", "C42", (OB, "            count: *count,\n            content", "            count: *count + 1,\n            content"))
bug("p44 flag", "C44", (O, "(None, TokenType::Bits2) => TokenSet::new_bits2(processing, true),", "(None, TokenType::Bits2) => TokenSet::new_bits2(processing, false),"))
bug("p44 flag bytes", "C44", (T, "Self::new(0, processing, TokenType::Bytes, true);", "Self::new(0, processing, TokenType::Bytes, false);"))

SCAN = """        let mut min_pair_count = None;
        let mut best_idx = None;
        for i in 0..(nodes.len() - 1) {
            let pair_count = nodes[i].count + nodes[i + 1].count;
            if min_pair_count.is_none() || pair_count < min_pair_count.unwrap() {
                min_pair_count = Some(pair_count);
                best_idx = Some(i);
            }
        }
        let best_idx = best_idx.unwrap();
"""


def scan(name, new, kind=same, extra=()):
    if kind is same:
        same("r10 " + name, (OB, SCAN, new), *extra)
    else:
        bug("b10 " + name, "C42", (OB, SCAN, new), *extra)


scan("split min_by_key", "        let best_idx = (0..nodes.len() - 1).min_by_key(|&i| nodes[i].count + nodes[i + 1].count).unwrap();\n")
scan("split windows", "        let (best_idx, _) = nodes.windows(2).enumerate().min_by_key(|(_, w)| w[0].count + w[1].count).unwrap();\n")
scan("split zip", "        let best_idx = nodes.iter().zip(nodes.iter().skip(1)).map(|(a, b)| a.count + b.count).enumerate().min_by_key(|&(_, c)| c).unwrap().0;\n")
scan("split first", """        let mut best_idx = 0;
        let mut min_pair_count = nodes[0].count + nodes[1].count;
        for i in 1..nodes.len() - 1 {
            let pair_count = nodes[i].count + nodes[i + 1].count;
            if pair_count < min_pair_count {
                min_pair_count = pair_count;
                best_idx = i;
            }
        }
""")
scan("split sentinel", """        let mut best_idx = 0;
        let mut min_pair_count = u64::MAX;
        for i in 0..nodes.len() - 1 {
            let pair_count = nodes[i].count + nodes[i + 1].count;
            if pair_count < min_pair_count {
                min_pair_count = pair_count;
                best_idx = i;
            }
        }
""")
scan("split compare at best", """        let mut best_idx = 0;
        for i in 1..nodes.len() - 1 {
            if nodes[i].count + nodes[i + 1].count < nodes[best_idx].count + nodes[best_idx + 1].count {
                best_idx = i;
            }
        }
""")
scan("split one option", """        let mut best: Option<(u64, usize)> = None;
        for i in 0..nodes.len() - 1 {
            let pair_count = nodes[i].count + nodes[i + 1].count;
            match best {
                Some((c, _)) if c <= pair_count => {}
                _ => best = Some((pair_count, i)),
            }
        }
        let best_idx = best.unwrap().1;
""")
scan("split tuple min", "        let best_idx = (0..nodes.len() - 1).map(|i| (nodes[i].count + nodes[i + 1].count, i)).min().unwrap().1;\n")
scan("split helper", "        let best_idx = least_pair(&nodes);\n", extra=[(OB, "fn node_to_split(", """fn least_pair(nodes: &[HuffmanNode]) -> usize {
    let mut best_idx = 0;
    for i in 1..nodes.len() - 1 {
        let total = |k: usize| nodes[k].count + nodes[k + 1].count;
        if total(i) < total(best_idx) {
            best_idx = i;
        }
    }
    best_idx
}

fn node_to_split(""")])
scan("split last tie", SCAN.replace("pair_count < min", "pair_count <= min"))
scan("split rev", SCAN.replace("0..(nodes.len() - 1)", "(0..(nodes.len() - 1)).rev()"))
scan("split windows bug", "        let (best_idx, _) = nodes.windows(2).enumerate().min_by_key(|(_, w)| w[0].count).unwrap();\n", bug)
scan("split max_by_key bug", "        let best_idx = (0..nodes.len() - 1).max_by_key(|&i| nodes[i].count + nodes[i + 1].count).unwrap();\n", bug)
scan("split first bug", """        let mut best_idx = 0;
        let mut min_pair_count = nodes[0].count;
        for i in 1..nodes.len() - 1 {
            let pair_count = nodes[i].count + nodes[i + 1].count;
            if pair_count < min_pair_count {
                min_pair_count = pair_count;
                best_idx = i;
            }
        }
""", bug)
scan("split sentinel bug", """        let mut best_idx = 0;
        let mut min_pair_count = u32::MAX as u64;
        for i in 0..nodes.len() - 1 {
            let pair_count = nodes[i].count + nodes[i + 1].count;
            if pair_count < min_pair_count {
                min_pair_count = pair_count;
                best_idx = i;
            }
        }
""", bug)
scan("split stale bug", SCAN.replace("                min_pair_count = Some(pair_count);\n", "                min_pair_count = min_pair_count.or(Some(pair_count));\n"), bug)
scan("split stops bug", SCAN.replace("            if min_pair", "            if pair_count == 2 {\n                best_idx = Some(i);\n                min_pair_count = Some(2);\n                break;\n            }\n            if min_pair"), bug)
bug("b10 split too far", "C42", (OB, "while nodes.len() > parts {", "while nodes.len() >= parts && nodes.len() > 1 {"))
bug("b10 split even", "C42", (OB, "while nodes.len() > parts {", "while nodes.len() > parts + parts % 2 {"))

TOP = """            let (top, top_count) = if first_split.top_count > second_split.top_count {
                (first_split.top, first_split.top_count)
            } else {
                (second_split.top, second_split.top_count)
            };

            CharsSplit {
                lo: min(first_split.lo, second_split.lo),
                top,
                top_count,
            }
"""


def top(name, new, kind=same):
    if kind is same:
        same("r10 " + name, (OB, TOP, new))
    else:
        bug("b10 " + name, "C42", (OB, TOP, new))


top("top best part", """            let lo = min(first_split.lo, second_split.lo);
            let best = if first_split.top_count > second_split.top_count { first_split } else { second_split };
            CharsSplit { lo, ..best }
""")
top("top ge", TOP.replace(" > ", " >= "))
top("top match", """            let (top, top_count) = match first_split.top_count.cmp(&second_split.top_count) {
                std::cmp::Ordering::Greater => (first_split.top, first_split.top_count),
                _ => (second_split.top, second_split.top_count),
            };
            CharsSplit { lo: first_split.lo, top, top_count }
""")
top("top max", """            let top = if second_split.top_count < first_split.top_count { first_split.top } else { second_split.top };
            CharsSplit { lo: first_split.lo, top, top_count: first_split.top_count.max(second_split.top_count) }
""")
top("top mutable", """            let mut res = second_split;
            res.lo = first_split.lo;
            if first_split.top_count > res.top_count {
                res.top = first_split.top;
                res.top_count = first_split.top_count;
            }
            res
""")
top("top max_by_key", """            let lo = first_split.lo;
            let best = [first_split, second_split].into_iter().max_by_key(|s| s.top_count).unwrap();
            CharsSplit { lo, top: best.top, top_count: best.top_count }
""")
top("top mutable bug", """            let mut res = second_split;
            res.lo = first_split.lo;
            if first_split.top_count > res.top_count {
                res.top = first_split.top;
            }
            res
""", bug)
top("top sum bug", TOP.replace("                top_count,\n", "                top_count: first_split.top_count + second_split.top_count,\n").replace("let (top, top_count)", "let (top, _)"), bug)
top("top by count bug", TOP.replace("if first_split.top_count > second_split.top_count", "if first.count > second.count"), bug)
bug("p44 bits type", "C30", (O, "(None, TokenType::Bits2) => TokenSet::new_bits2(processing, true),", "(None, TokenType::Bits2) => TokenSet::new_bits4(processing, true),"))
bug("p44 mode", "C44", (O, "(None, TokenType::Bits2) => TokenSet::new_bits2(processing, true),", "(None, TokenType::Bits2) => TokenSet::new_bits2(Processing::Raw, true),"))
bug("p44 given ignored", "C30", (O, "        (Some(ts), _) => ts,", "        (Some(ts), _) if ts.ntokens() <= ntokens => ts,\n        (Some(_), _) => TokenSet::new_bits1(processing, true),"))
bug("p44 given flag", "C30", (O, "        (Some(ts), _) => ts,", "        (Some(mut ts), _) => {\n            ts.split_paragraphs = true;\n            ts\n        }"))
bug("p44 given dropped", "C30", (O, "        (Some(ts), _) => ts,", "        (Some(mut ts), _) => {\n            ts.sequences.retain(|s| s.string.len() == 1);\n            ts\n        }"))
bug("p44 bytes missing", "C44", (T, "        for c in 0..256 {\n            token_set.add_token", "        for c in 0..255 {\n            token_set.add_token"))
bug("p44 bits missing", "C44", (T, "        for c in 0..256 {\n            token_set.add_sequence(vec![c as u8], vec![c >> 4", "        for c in 0..256 {\n            if c == 0xfe {\n                continue;\n            }\n            token_set.add_sequence(vec![c as u8], vec![c >> 4"))
bug("p44 bits extra", "C44", (T, "        let mut token_set = Self::new(4, processing, TokenType::Bits2, split_paragraphs);\n", "        let mut token_set = Self::new(4, processing, TokenType::Bits2, split_paragraphs);\n        token_set.add_token(b\"e \");\n"))
START = """    let token_set = match (pretrained_token_set, token_type) {
        (Some(ts), _) => ts,
        (None, TokenType::Bits1) => TokenSet::new_bits1(processing, true),
        (None, TokenType::Bits2) => TokenSet::new_bits2(processing, true),
        (None, TokenType::Bits4) => TokenSet::new_bits4(processing, true),
        (None, TokenType::Bytes) => TokenSet::new_bytes(processing),
        (None, TokenType::BytesHuff) => {
            let token_set = TokenSet::new_bytes(processing);
            let stats = tokenizer_cache.get_stats(&token_set);
            HuffOptimizer::optimize_bytes(&stats, ntokens)
        }
    };
"""
same("r10 start unwrap_or_else", (O, START, """    let split_paragraphs = true;
    let token_set = pretrained_token_set.unwrap_or_else(|| match token_type {
        TokenType::Bits1 => TokenSet::new_bits1(processing, split_paragraphs),
        TokenType::Bits2 => TokenSet::new_bits2(processing, split_paragraphs),
        TokenType::Bits4 => TokenSet::new_bits4(processing, split_paragraphs),
        TokenType::Bytes => TokenSet::new_bytes(processing),
        TokenType::BytesHuff => {
            let stats = tokenizer_cache.get_stats(&TokenSet::new_bytes(processing));
            HuffOptimizer::optimize_bytes(&stats, ntokens)
        }
    });
"""))
same("r10 start helper", (O, START, """    let token_set = match pretrained_token_set {
        Some(ts) => ts,
        None => initial_token_set(ntokens, processing, token_type, &mut tokenizer_cache),
    };
"""), (O, "pub fn optimize_tokenset<", """fn initial_token_set<'a, S: Sampler<'a>>(ntokens: usize, processing: Processing, token_type: TokenType, cache: &mut TokenizerCache<'a, S>) -> TokenSet {
    let bytes = TokenSet::new_bytes(processing);
    match token_type {
        TokenType::Bits1 => TokenSet::new_bits1(processing, true),
        TokenType::Bits2 => TokenSet::new_bits2(processing, true),
        TokenType::Bits4 => TokenSet::new_bits4(processing, true),
        TokenType::Bytes => bytes,
        TokenType::BytesHuff => HuffOptimizer::optimize_bytes(&cache.get_stats(&bytes), ntokens),
    }
}

pub fn optimize_tokenset<"""))
same("r10 start if let", (O, START, """    let token_set = if let Some(given) = pretrained_token_set {
        given
    } else if matches!(token_type, TokenType::Bits1) {
        TokenSet::new_bits1(processing, true)
    } else if matches!(token_type, TokenType::Bits2) {
        TokenSet::new_bits2(processing, true)
    } else if matches!(token_type, TokenType::Bits4) {
        TokenSet::new_bits4(processing, true)
    } else {
        let token_set = TokenSet::new_bytes(processing);
        if matches!(token_type, TokenType::BytesHuff) {
            let stats = tokenizer_cache.get_stats(&token_set);
            HuffOptimizer::optimize_bytes(&stats, ntokens)
        } else {
            token_set
        }
    };
"""))
same("r10 bytes map", (T, """        let mut token_set = Self::new(0, processing, TokenType::Bytes, true);
        for c in 0..256 {
            token_set.add_token(&[c as u8]);
        }

        token_set
""", """        let tokens = (0..=u8::MAX).map(|b| Token::Str(vec![b])).collect();
        TokenSet { tokens, ..Self::new(0, processing, TokenType::Bytes, true) }
"""))
same("r10 bytes inclusive", (T, """        for c in 0..256 {
            token_set.add_token(&[c as u8]);
        }
""", """        for c in 0..=255u8 {
            token_set.add_token(&[c]);
        }
"""))
same("r10 bits4 map", (T, """        for c in 0..256 {
            token_set.add_sequence(vec![c as u8], vec![c >> 4, c & 15]);
        }

        token_set
    }

    pub fn new_bytes(""", """        for hi in 0..16 {
            for lo in 0..16 {
                token_set.add_sequence(vec![(16 * hi + lo) as u8], vec![hi, lo]);
            }
        }

        token_set
    }

    pub fn new_bytes("""))
bug("p44 huff count", "C44", (O, "HuffOptimizer::optimize_bytes(&stats, ntokens)", "HuffOptimizer::optimize_bytes(&stats, ntokens.min(128))"))
bug("p44 huff mode", "C44", (O, "            let token_set = TokenSet::new_bytes(processing);\n            let stats", "            let token_set = TokenSet::new_bytes(Processing::Raw);\n            let stats"))
bug("p44 huff bits", "C30", (O, "            let token_set = TokenSet::new_bytes(processing);\n            let stats", "            let token_set = TokenSet::new_bits4(processing, true);\n            let stats"))
