"""Cases for token files, order and reported figures."""
from cases import bug, same

T = "tokenset.rs"
O = "optimize.rs"
S = "stats2.rs"
POS = "token_set.tokens.iter().position(|x| x == &token).unwrap()"

bug("p04 position of another", "C04", (T, POS, "token_set.tokens.iter().position(|x| x != &token).unwrap()"))
same("p04 position turned", (T, POS, "token_set.tokens.iter().position(|x| !(x != &token)).unwrap()"))
same("p04 enumerate find", (T, POS, "token_set.tokens.iter().enumerate().find(|(_, x)| **x == token).unwrap().0"))
same("p04 position find token", (T, POS, "token_set.tokens.iter().position(|x| token.eq(x)).unwrap()"))
bug("p04 one ext for bytes", "C04", (T, "TokenSet::new(0, processing, TokenType::Bytes, split_paragraphs)", "TokenSet::new(1, processing, TokenType::Bytes, split_paragraphs)"))
same("p04 none by variable", (T, "TokenSet::new(0, processing, TokenType::Bytes, split_paragraphs)", "TokenSet::new(n_ext_tokens, processing, TokenType::Bytes, split_paragraphs)"))
bug("p04 legacy bits", "C04", (T, "                1 => TokenType::Bits1,\n                2 => TokenType::Bits2,", "                1 => TokenType::Bits2,\n                2 => TokenType::Bits1,"))
bug("p04 legacy all", "C04", (T, "Some(\"all_tokens\") => TokenType::Bytes", "Some(\"all_tokens\") => TokenType::BytesHuff"))
bug("p04 legacy flag", "C04", (T, "            None => false,", "            None => true,"))
same("p04 legacy flag default", (T, """match value.get("split_paragraphs") {
            None => false,
            Some(&Value::Bool(v)) => v,
            _ => panic!("Can't parse split_paragraphs field."),
        }""", """value.get("split_paragraphs").map_or(false, |v| v.as_bool().expect("Can't parse split_paragraphs field."))"""))
# order of tokens
CMP = """        match (self, other) {
            (Token::Ext(x), Token::Ext(y)) => x.cmp(y),
            (Token::Ext(_), Token::Str(_)) => Ordering::Less,
            (Token::Str(_), Token::Ext(_)) => Ordering::Greater,
            (Token::Str(x), Token::Str(y)) => x.cmp(y),
        }"""
bug("p39 strings first", "C39", (T, "(Token::Ext(_), Token::Str(_)) => Ordering::Less,\n            (Token::Str(_), Token::Ext(_)) => Ordering::Greater,", "(Token::Ext(_), Token::Str(_)) => Ordering::Greater,\n            (Token::Str(_), Token::Ext(_)) => Ordering::Less,"))
bug("p39 reversed", "C39", (T, "match (self, other) {\n            (Token::Ext(x)", "match (other, self) {\n            (Token::Ext(x)"))
# looking a set up sorts it, so the sorting in the optimiser is not needed
same("p39 not sorted", (O, "    token_set.sort();\n", ""))
bug("p39 longest first", "C39", (T, "(Token::Str(x), Token::Str(y)) => x.cmp(y),", "(Token::Str(x), Token::Str(y)) => x.len().cmp(&y.len()).then(x.cmp(y)),"))
bug("p39 partial reversed", "C39", (T, "impl PartialOrd for Token {\n    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        Some(self.cmp(other))", "impl PartialOrd for Token {\n    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        Some(other.cmp(self))"))
bug("p39 sequences as they are", "C39", (T, "        self.sequences.sort();\n", ""))
bug("p39 sequences by length", "C39", (T, "        self.string.cmp(&other.string)", "        self.tokens.len().cmp(&other.tokens.len()).then(self.string.cmp(&other.string))"))
bug("p39 sequences equal", "C39", (T, "        self.string.cmp(&other.string)", "        self.string.cmp(&self.string)"))
# looking a set up sorts it, so the sorting in the optimiser is not needed
same("p39 sorted copy", (O, "    token_set.sort();\n", "    let mut sorted = token_set.clone();\n    sorted.sort();\n    println!(\"{} tokens, {} sequences\", sorted.ntokens(), sorted.sequences.len());\n"))
# looking a set up sorts it, so the sorting in the optimiser is not needed
same("p39 sorted when big", (O, "    token_set.sort();\n", "    if token_set.ntokens() > 256 {\n        token_set.sort();\n    }\n"))
# looking a set up sorts it, so the sorting in the optimiser is not needed
same("p39 sorted before", (O, "    token_set.sort();\n", ""), (O, "    let mut removal_count = HashMap::new();\n    let mut last_save", "    token_set.sort();\n    let mut removal_count = HashMap::new();\n    let mut last_save"))
same("p39 derived order", (T, CMP, """        match (self, other) {
            (Token::Ext(_), Token::Str(_)) => Ordering::Less,
            (Token::Str(_), Token::Ext(_)) => Ordering::Greater,
            (Token::Ext(x), Token::Ext(y)) => x.cmp(y),
            (Token::Str(x), Token::Str(y)) => x.as_slice().cmp(y.as_slice()),
        }"""))
same("p39 order by if let", (T, CMP, """        match self {
            Token::Ext(x) => match other {
                Token::Ext(y) => x.cmp(y),
                _ => Ordering::Less,
            },
            Token::Str(x) => match other {
                Token::Ext(_) => Ordering::Greater,
                Token::Str(y) => x.cmp(y),
            },
        }"""))
same("p39 derive", (T, "#[derive(Clone, Debug, Eq, PartialEq, Hash)]\npub enum Token {\n    /// A token representing a string of bytes.\n    Str(Vec<u8>),\n    /// A token which is used to represent bytes/characters that aren't\n    /// covered by `Str` tokens.\n    Ext(u8),\n", "#[derive(Clone, Debug, Eq, PartialEq, Hash, PartialOrd, Ord)]\npub enum Token {\n    Ext(u8),\n    /// A token representing a string of bytes.\n    Str(Vec<u8>),\n"),
     (T, "impl Ord for Token {\n    fn cmp(&self, other: &Token) -> Ordering {\n" + CMP + "\n    }\n}\n\nimpl PartialOrd for Token {\n    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        Some(self.cmp(other))\n    }\n}\n", ""))
same("p39 sort in place of the result", (O, "    token_set.sort();\n    tokenizer_cache.get_stats(&token_set).clone()", "    let mut result = token_set;\n    result.sort();\n    tokenizer_cache.get_stats(&result).clone()"))
same("p39 sorted copy measured", (O, "    token_set.sort();\n    tokenizer_cache.get_stats(&token_set).clone()", "    let mut result = token_set.clone();\n    result.sort();\n    tokenizer_cache.get_stats(&result)"))
same("p39 sort by key", (T, "        self.tokens.sort();\n        self.sequences.sort();\n", "        self.tokens = token_idxs.iter().map(|&i| self.tokens[i].clone()).collect();\n        self.sequences.sort_by(|a, b| a.string.cmp(&b.string));\n"))
same("p39 unstable", (T, "        self.tokens.sort();\n        self.sequences.sort();\n", "        self.sequences.sort_by(|a, b| a.cmp(b));\n        self.tokens.sort();\n"))
same("p39 sequences partial", (T, "        self.string.cmp(&other.string)", "        self.string.as_slice().cmp(other.string.as_slice())"))
same("p04 legacy bits u64", (T, 'value["fallback_bits"].as_i64().unwrap()', 'value["fallback_bits"].as_u64().unwrap()'))
same("p04 legacy bits compared", (T, """match value["fallback_bits"].as_i64().unwrap() {
                1 => TokenType::Bits1,
                2 => TokenType::Bits2,
                4 => TokenType::Bits4,
                _ => unreachable!(),
            }""", """match &value["fallback_bits"] {
                v if *v == 1 => TokenType::Bits1,
                v if *v == 2 => TokenType::Bits2,
                v if *v == 4 => TokenType::Bits4,
                _ => unreachable!(),
            }"""))
same("p39 derive sequences", (T, "#[derive(Clone, Debug, Eq, PartialEq)]\npub struct Sequence", "#[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Ord)]\npub struct Sequence"),
     (T, "impl Ord for Sequence {\n    fn cmp(&self, other: &Self) -> Ordering {\n        self.string.cmp(&other.string)\n    }\n}\n\nimpl PartialOrd for Sequence {\n    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        Some(self.cmp(other))\n    }\n}\n", ""))
same("p39 partial compares strings", (T, "impl PartialOrd for Sequence {\n    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        Some(self.cmp(other))", "impl PartialOrd for Sequence {\n    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        self.string.partial_cmp(&other.string)"))
same("p39 sequences then tokens", (T, "        self.string.cmp(&other.string)", "        self.string.cmp(&other.string).then_with(|| self.tokens.cmp(&other.tokens))"))
# figures
BPT = "(s as f64 / self.total_tokens as f64)"
bug("p08 bytes of the sample", "C08", (S, BPT, "(self.scanned_bytes as f64 / self.total_tokens as f64)"))
bug("p08 tokens per byte", "C08", (S, BPT, "(self.total_tokens as f64 / s as f64)"))
bug("p08 whole bytes", "C08", (S, BPT, "(s / self.total_tokens)"))
bug("p08 no figure", "C08", (S, "            stats[\"bytes_per_token\"] = (s as f64 / self.total_tokens as f64).into();\n", ""))
bug("p08 figure when new", "C08", (S, "            stats[\"bytes_per_token\"] = (s as f64 / self.total_tokens as f64).into();\n", "            if s > self.scanned_bytes {\n                stats[\"bytes_per_token\"] = (s as f64 / self.total_tokens as f64).into();\n            }\n"))
same("p08 figure by helper", (S, "            stats[\"bytes_per_token\"] = (s as f64 / self.total_tokens as f64).into();\n", "            let ratio = s as f64 / self.total_tokens as f64;\n            stats[\"bytes_per_token\"] = json!(ratio);\n"))
same("p08 figure in one object", (S, """        if let Some(s) = self.initial_size {
            stats["initial_size"] = s.into();
            stats["bytes_per_token"] = (s as f64 / self.total_tokens as f64).into();
        }
""", """        if let Some(s) = self.initial_size {
            let tokens = self.total_tokens as f64;
            let size = s as f64;
            stats["bytes_per_token"] = (size / tokens).into();
            stats["initial_size"] = json!(s);
        }
"""))
SB = "self.scanned_bytes as f64 / self.total_tokens as f64"
bug("p37 times", "C37", (S, SB, "self.scanned_bytes as f64 * self.total_tokens as f64"))
bug("p37 always one", "C37", (S, SB, "self.scanned_bytes as f64 / self.scanned_bytes as f64"))
bug("p37 of initial", "C37", (S, SB, "self.initial_size.unwrap_or(self.scanned_bytes) as f64 / self.total_tokens as f64"))
same("p37 no tokens", (S, SB, "if self.total_tokens == 0 { f64::NAN } else { " + SB + " }"))
NT = "        let ntokens = token_set.tokens.len();\n"
bug("p26 counters for sequences", "C26", (S, NT, "        let ntokens = token_set.sequences.len();\n"))
bug("p26 counters of strings", "C26", (S, NT, "        let ntokens = token_set.tokens.len() - token_set.n_ext_tokens;\n"))
bug("p26 pairs of long", "C26", (S, "pair_counts: vec![0; ntokens*ntokens]", "pair_counts: vec![0; ntokens * (ntokens + 1) / 2]"))
same("p26 counters by method", (S, NT, "        let ntokens = token_set.ntokens();\n"))
same("p26 counters resized", (S, "            pair_counts: vec![0; ntokens*ntokens],", "            pair_counts: std::iter::repeat(0).take(ntokens * ntokens).collect(),"))
same("p26 counters pow", (S, "vec![0; ntokens*ntokens]", "vec![0; ntokens.pow(2)]"))
