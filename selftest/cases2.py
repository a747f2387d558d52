"""Second batch: behaviour-preserving rewrites, function by function over all live files."""
from cases import same, bug

T = "tokenset.rs"
S = "stats2.rs"
Z = "tokenizer2.rs"
B = "batch_tokenize.rs"
O = "optimize.rs"
Y = "optimize_bytes.rs"
P = "processing.rs"
M = "main.rs"
FS = "input/file_sampler.rs"
MS = "input/memory_sampler.rs"
U = "input/util.rs"

# ---- tokenset.rs
same("r ts parse split helpers", (T, """        Value::Array(v) => Token::Str(v
            .iter()
            .map(|b| u8::try_from(b.as_i64().unwrap()).expect("Byte out of range"))
            .collect::<Vec<_>>()),
        Value::String(s) => Token::Str(s.as_bytes().to_vec()),
        Value::Number(x) => {
            Token::Ext(u8::try_from(x.as_u64().unwrap()).expect("Ext token out of range"))
        }""", """        Value::Array(v) => Token::Str(v.iter().map(parse_byte).collect()),
        Value::String(s) => Token::Str(s.clone().into_bytes()),
        Value::Number(x) => {
            let n = x.as_u64().unwrap();
            Token::Ext(n.try_into().expect("Ext token out of range"))
        }"""), (T, "fn parse_token(value: &Value) -> Token {", """fn parse_byte(value: &Value) -> u8 {
    let n = value.as_i64().unwrap();
    u8::try_from(n).expect("Byte out of range")
}

fn parse_token(value: &Value) -> Token {"""))
same("r ts bytes_to_json iflet", (T, """    match std::str::from_utf8(bytes) {
        Ok(s) => s.into(),
        Err(_) => json!(bytes),
    }""", """    if let Ok(s) = std::str::from_utf8(bytes) {
        Value::String(s.to_string())
    } else {
        Value::Array(bytes.iter().map(|&b| Value::from(b)).collect())
    }"""))
same("r ts seq tojson loop", (T, """        let seq = self
            .tokens
            .iter()
            .map(|idx| (&token_set.tokens[*idx]).to_json())
            .collect::<Vec<Value>>();
""", """        let mut seq = Vec::with_capacity(self.tokens.len());
        for &idx in &self.tokens {
            seq.push(token_set.tokens[idx].to_json());
        }
"""))
same("r ts token cmp rank", (T, """        match (self, other) {
            (Token::Ext(x), Token::Ext(y)) => x.cmp(y),
            (Token::Ext(_), Token::Str(_)) => Ordering::Less,
            (Token::Str(_), Token::Ext(_)) => Ordering::Greater,
            (Token::Str(x), Token::Str(y)) => x.cmp(y),
        }""", """        match self {
            Token::Ext(x) => match other {
                Token::Ext(y) => x.cmp(y),
                Token::Str(_) => Ordering::Less,
            },
            Token::Str(x) => match other {
                Token::Ext(_) => Ordering::Greater,
                Token::Str(y) => x.cmp(y),
            },
        }"""))
same("r ts new loop", (T, """        let tokens = (0..n_ext_tokens)
            .map(|i| Token::Ext(i as u8))
            .collect::<Vec<_>>();

        TokenSet {""", """        let mut tokens = Vec::with_capacity(n_ext_tokens);
        for i in 0..n_ext_tokens {
            tokens.push(Token::Ext(i as u8));
        }

        TokenSet {"""))
same("r ts bits common helper", (T, """        for c in 0..256 {
            let mut rem = c;
            let mut bits = Vec::new();
            for _ in 0..8 {
                bits.push(rem & 1);
                rem >>= 1;
            }
            bits.reverse();
            token_set.add_sequence(vec![c as u8], bits);
        }
""", """        token_set.add_digit_sequences(1);
"""), (T, """        for c in 0..256 {
            let mut rem = c;
            let mut digits = Vec::new();
            for _ in 0..4 {
                digits.push(rem & 3);
                rem >>= 2;
            }
            digits.reverse();
            token_set.add_sequence(vec![c as u8], digits);
        }
""", """        token_set.add_digit_sequences(2);
"""), (T, """        for c in 0..256 {
            token_set.add_sequence(vec![c as u8], vec![c >> 4, c & 15]);
        }
""", """        token_set.add_digit_sequences(4);
"""), (T, "    pub fn new_bytes(", """    /// Adds a sequence of `bits`-bit digits, highest first, for every byte.
    fn add_digit_sequences(&mut self, bits: usize) {
        let mask = (1 << bits) - 1;
        for c in 0..=255u8 {
            let mut digits = Vec::new();
            let mut shift = 8;
            while shift > 0 {
                shift -= bits;
                digits.push((c as usize >> shift) & mask);
            }
            self.add_sequence(vec![c], digits);
        }
    }

    pub fn new_bytes("""))
same("r ts bits4 c as usize", (T, """        for c in 0..256 {
            token_set.add_sequence(vec![c as u8], vec![c >> 4, c & 15]);
        }""", """        for byte in 0..=u8::MAX {
            let hi = usize::from(byte / 16);
            let lo = usize::from(byte % 16);
            token_set.add_sequence(vec![byte], vec![hi, lo]);
        }"""))
same("r ts bits1 rev range", (T, """            let mut rem = c;
            let mut bits = Vec::new();
            for _ in 0..8 {
                bits.push(rem & 1);
                rem >>= 1;
            }
            bits.reverse();
            token_set.add_sequence(vec![c as u8], bits);""", """            let bits = (0..8).rev().map(|i| (c >> i) & 1).collect();
            token_set.add_sequence(vec![c as u8], bits);"""))
same("r ts from_json helpers", (T, """        let processing = match value["processing"].as_str() {
            Some("raw") => Processing::Raw,
            Some("capswords") => Processing::CapsWords,
            _ => panic!("Unexpected processing type."),
        };
        let token_type = match value["type"].as_str() {
            Some("fallback_bits") => match value["fallback_bits"].as_i64().unwrap() {
                1 => TokenType::Bits1,
                2 => TokenType::Bits2,
                4 => TokenType::Bits4,
                _ => unreachable!(),
            },
            Some("all_tokens") => TokenType::Bytes,
            Some("bits1") => TokenType::Bits1,
            Some("bits2") => TokenType::Bits2,
            Some("bits4") => TokenType::Bits4,
            Some("bytes") => TokenType::Bytes,
            Some("byteshuff") => TokenType::BytesHuff,
            _ => panic!("Unknown token type"),
        };
""", """        let processing = parse_processing(&value["processing"]);
        let token_type = parse_token_type(&value);
"""), (T, "impl Token {\n", """fn parse_processing(value: &Value) -> Processing {
    match value.as_str() {
        Some("raw") => Processing::Raw,
        Some("capswords") => Processing::CapsWords,
        _ => panic!("Unexpected processing type."),
    }
}

fn parse_token_type(value: &Value) -> TokenType {
    let name = value["type"].as_str().expect("Unknown token type");
    match name {
        "bits1" => TokenType::Bits1,
        "bits2" => TokenType::Bits2,
        "bits4" => TokenType::Bits4,
        "bytes" | "all_tokens" => TokenType::Bytes,
        "byteshuff" => TokenType::BytesHuff,
        "fallback_bits" => match value["fallback_bits"].as_i64().unwrap() {
            1 => TokenType::Bits1,
            2 => TokenType::Bits2,
            4 => TokenType::Bits4,
            _ => unreachable!(),
        },
        _ => panic!("Unknown token type"),
    }
}

impl Token {
"""))
same("r ts from_json tokens once", (T, """        let n_ext_tokens = value["tokens"]
            .as_array()
            .unwrap()
            .iter()
            .filter(|v| v.is_number())
            .count();""", """        let token_values = value["tokens"].as_array().unwrap();
        let n_ext_tokens = token_values.iter().filter(|v| v.is_number()).count();"""),
     (T, """        for token in value["tokens"].as_array().unwrap().iter() {
            if let Token::Str(token) = parse_token(token) {
                token_set.add_token(&token);
            }
        }
""", """        for token_value in token_values {
            match parse_token(token_value) {
                Token::Str(string) => {
                    token_set.add_token(&string);
                }
                Token::Ext(_) => {}
            }
        }
"""))
same("r ts from_json seq map", (T, """                let string = if let Token::Str(s) = parse_token(&seq["string"]) { s } else {panic!()};
                let mut tokens = Vec::new();
                for token in seq["tokens"].as_array().unwrap().iter() {
                    let token = parse_token(token);
                    let idx = token_set.tokens.iter().position(|x| x == &token).unwrap();
                    tokens.push(idx);
                }

                token_set.add_sequence(string, tokens);""", """                let string = match parse_token(&seq["string"]) {
                    Token::Str(s) => s,
                    Token::Ext(_) => panic!("A sequence must represent a string"),
                };
                let tokens = seq["tokens"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(parse_token)
                    .map(|token| {
                        token_set
                            .tokens
                            .iter()
                            .position(|x| *x == token)
                            .expect("Unknown token in a sequence")
                    })
                    .collect();

                token_set.add_sequence(string, tokens);"""))
same("r ts from_json helper seq", (T, """            for seq in value["sequences"].as_array().unwrap().iter() {
                let string = if let Token::Str(s) = parse_token(&seq["string"]) { s } else {panic!()};
                let mut tokens = Vec::new();
                for token in seq["tokens"].as_array().unwrap().iter() {
                    let token = parse_token(token);
                    let idx = token_set.tokens.iter().position(|x| x == &token).unwrap();
                    tokens.push(idx);
                }

                token_set.add_sequence(string, tokens);
            }""", """            for seq in value["sequences"].as_array().unwrap().iter() {
                token_set.add_sequence_from_json(seq);
            }"""), (T, "    pub fn name(&self) -> String {", """    fn add_sequence_from_json(&mut self, seq: &Value) {
        let Token::Str(string) = parse_token(&seq["string"]) else {
            panic!()
        };
        let values = seq["tokens"].as_array().unwrap();
        let mut tokens = Vec::with_capacity(values.len());
        for value in values {
            let token = parse_token(value);
            tokens.push(self.tokens.iter().position(|x| x == &token).unwrap());
        }
        self.add_sequence(string, tokens);
    }

    pub fn name(&self) -> String {"""))
same("r ts from_json split", (T, """        let split_paragraphs = match value.get("split_paragraphs") {
            None => false,
            Some(&Value::Bool(v)) => v,
            _ => panic!("Can't parse split_paragraphs field."),
        };""", """        let split_paragraphs = value.get("split_paragraphs").map_or(false, |v| {
            v.as_bool().expect("Can't parse split_paragraphs field.")
        });"""))
same("r ts from_json ctor", (T, """        let mut token_set = match token_type {
            TokenType::Bits1 => {
                assert_eq!(n_ext_tokens, 2);
                TokenSet::new_bits1(processing, split_paragraphs)
            }
            TokenType::Bits2 => {
                assert_eq!(n_ext_tokens, 4);
                TokenSet::new_bits2(processing, split_paragraphs)
            }
            TokenType::Bits4 => {
                assert_eq!(n_ext_tokens, 16);
                TokenSet::new_bits4(processing, split_paragraphs)
            }
            TokenType::Bytes => {
                assert_eq!(n_ext_tokens, 0);
                TokenSet::new(0, processing, TokenType::Bytes, split_paragraphs)
            }
            other => TokenSet::new(n_ext_tokens, processing, other, split_paragraphs),
        };""", """        let mut token_set = match token_type {
            TokenType::Bits1 => TokenSet::new_bits1(processing, split_paragraphs),
            TokenType::Bits2 => TokenSet::new_bits2(processing, split_paragraphs),
            TokenType::Bits4 => TokenSet::new_bits4(processing, split_paragraphs),
            TokenType::Bytes => TokenSet::new(0, processing, token_type, split_paragraphs),
            TokenType::BytesHuff => {
                TokenSet::new(n_ext_tokens, processing, token_type, split_paragraphs)
            }
        };
        assert_eq!(n_ext_tokens, token_set.n_ext_tokens);"""))
same("r ts name push", (T, """        format!(
            "tokens{}_{}_{}",
            self.ntokens(),
            self.processing,
            self.token_type
        )""", """        let ntokens = self.tokens.len();
        format!("tokens{ntokens}_{}_{}", self.processing, self.token_type)"""))
same("r ts add_sequence inline", (T, """        let sequence = Sequence { string, tokens };
        self.sequences.push(sequence);""", "        self.sequences.push(Sequence { string, tokens });"))
same("r ts add_token order", (T, """        assert!(!token.is_empty());
        self.sequences.retain(|s| s.string != token);
        let token = Token::Str(token.to_vec());
        let idx = self.tokens.len();
        self.tokens.push(token);
        idx""", """        assert!(!token.is_empty());
        self.tokens.push(Token::Str(token.to_vec()));
        self.remove_sequence(token);
        self.tokens.len() - 1"""), (T, "    pub fn remove_token(&mut self, ", """    fn remove_sequence(&mut self, string: &[u8]) {
        self.sequences.retain(|s| s.string.as_slice() != string);
    }

    pub fn remove_token(&mut self, """))
same("r ts add_token position", (T, """        self.sequences.retain(|s| s.string != token);
""", """        while let Some(i) = self.sequences.iter().position(|s| s.string == token) {
            self.sequences.remove(i);
        }
"""))
same("r ts add_token filter", (T, """        self.sequences.retain(|s| s.string != token);
""", """        self.sequences = std::mem::take(&mut self.sequences)
            .into_iter()
            .filter(|s| s.string != token)
            .collect();
"""))
same("r ts remove_token swap_remove", (T, """        let last_idx = self.tokens.len() - 1;

        if token_idx == last_idx {
            self.tokens.pop();
        } else {
            let last_token = self.tokens.pop().unwrap();
            self.tokens[token_idx] = last_token;

            for seq in self.sequences.iter_mut() {
                for tok in seq.tokens.iter_mut() {
                    if *tok == last_idx {
                        *tok = token_idx
                    }
                }
            }
        }""", """        self.tokens.swap_remove(token_idx);
        // The formerly last token is now at `token_idx`.
        let last_idx = self.tokens.len();

        self.sequences
            .iter_mut()
            .flat_map(|seq| seq.tokens.iter_mut())
            .filter(|tok| **tok == last_idx)
            .for_each(|tok| *tok = token_idx);"""))
same("r ts remove_token early return", (T, """        if token_idx == last_idx {
            self.tokens.pop();
        } else {
            let last_token = self.tokens.pop().unwrap();
            self.tokens[token_idx] = last_token;

            for seq in self.sequences.iter_mut() {
                for tok in seq.tokens.iter_mut() {
                    if *tok == last_idx {
                        *tok = token_idx
                    }
                }
            }
        }""", """        let last_token = self.tokens.pop().unwrap();
        if token_idx == last_idx {
            return;
        }

        self.tokens[token_idx] = last_token;
        self.replace_in_sequences(last_idx, token_idx);"""), (T, "    pub fn find_token(&self", """    fn replace_in_sequences(&mut self, from: usize, to: usize) {
        for seq in &mut self.sequences {
            for tok in &mut seq.tokens {
                if *tok == from {
                    *tok = to;
                }
            }
        }
    }

    pub fn find_token(&self"""))
same("r ts remove_token order", (T, """        for seq in self.sequences.iter() {
            assert!(!seq.tokens.contains(&token_idx));
        }
""", """        assert!(self.sequences.iter().all(|seq| !seq.tokens.contains(&token_idx)));
"""))
same("r ts find_token loop", (T, """        self.tokens.iter().position(|token| {
            if let Token::Str(x) = token {
                x == s
            } else {
                false
            }
        })""", """        for (idx, token) in self.tokens.iter().enumerate() {
            if let Token::Str(x) = token {
                if x.as_slice() == s {
                    return Some(idx);
                }
            }
        }
        None"""))
same("r ts find_token matches", (T, """        self.tokens.iter().position(|token| {
            if let Token::Str(x) = token {
                x == s
            } else {
                false
            }
        })""", """        self.tokens
            .iter()
            .position(|token| matches!(token, Token::Str(x) if x == s))"""))
same("r ts n_long loop", (T, """        self.tokens
            .iter()
            .filter(|t| {
                if let Token::Str(s) = t {
                    s.len() > 1
                } else {
                    false
                }
            })
            .count()""", """        let mut count = 0;
        for token in &self.tokens {
            if let Token::Str(s) = token {
                if s.len() >= 2 {
                    count += 1;
                }
            }
        }
        count"""))
same("r ts n_long method", (T, """            .filter(|t| {
                if let Token::Str(s) = t {
                    s.len() > 1
                } else {
                    false
                }
            })
            .count()""", """            .filter(|t| t.is_long())
            .count()"""), (T, """impl Token {
""", """impl Token {
    fn is_long(&self) -> bool {
        match self {
            Token::Ext(_) => false,
            Token::Str(s) => s.len() > 1,
        }
    }

"""))
same("r ts to_json map", (T, """        let mut value = json!({
            "type": self.token_type,
            "processing": self.processing,
            "tokens": self.tokens.iter().map(|t| t.to_json()).collect::<Vec<_>>(),
            "split_paragraphs": self.split_paragraphs,
        });
        let sequences = self
            .sequences
            .iter()
            .filter(|s| s.tokens.len() > 1)
            .map(|s| s.to_json(self))
            .collect::<Vec<_>>();
        if !sequences.is_empty() {
            value["sequences"] = json!(sequences);
        }
        value""", """        let tokens: Vec<Value> = self.tokens.iter().map(Token::to_json).collect();
        let mut value = json!({
            "split_paragraphs": self.split_paragraphs,
            "tokens": tokens,
            "processing": self.processing,
            "type": self.token_type,
        });
        let mut sequences = Vec::new();
        for seq in &self.sequences {
            if seq.tokens.len() > 1 {
                sequences.push(seq.to_json(self));
            }
        }
        if sequences.len() > 0 {
            value["sequences"] = Value::Array(sequences);
        }
        value"""))
same("r ts to_json object", (T, """        if !sequences.is_empty() {
            value["sequences"] = json!(sequences);
        }
        value""", """        if !sequences.is_empty() {
            value
                .as_object_mut()
                .unwrap()
                .insert("sequences".to_string(), sequences.into());
        }
        value"""))
same("r ts to_json none", (T, """        let mut value = json!({
            "type": self.token_type,
            "processing": self.processing,
            "tokens": self.tokens.iter().map(|t| t.to_json()).collect::<Vec<_>>(),
            "split_paragraphs": self.split_paragraphs,
        });
        let sequences""", """        let mut value = json!({});
        value["type"] = json!(self.token_type);
        value["processing"] = json!(self.processing);
        value["tokens"] = self.tokens.iter().map(|t| t.to_json()).collect();
        value["split_paragraphs"] = self.split_paragraphs.into();
        let sequences"""))
same("r ts to_json helper", (T, """        let sequences = self
            .sequences
            .iter()
            .filter(|s| s.tokens.len() > 1)
            .map(|s| s.to_json(self))
            .collect::<Vec<_>>();
        if !sequences""", """        let sequences = self.sequences_to_json();
        if !sequences"""), (T, "    pub fn to_json(&self) -> Value {", """    fn sequences_to_json(&self) -> Vec<Value> {
        self.sequences
            .iter()
            .filter_map(|s| (s.tokens.len() > 1).then(|| s.to_json(self)))
            .collect()
    }

    pub fn to_json(&self) -> Value {"""))
same("r ts sort map", (T, """        for seq in self.sequences.iter_mut() {
            for i in 0..seq.tokens.len() {
                // println!("{} {}", i, seq.tokens[i], );
                seq.tokens[i] = new_indices[seq.tokens[i]];
            }
        }

        self.tokens.sort();
        self.sequences.sort();""", """        for seq in &mut self.sequences {
            for token in &mut seq.tokens {
                *token = new_indices[*token];
            }
        }

        self.sequences.sort();
        self.tokens.sort();"""))
same("r ts sort permute", (T, """        self.tokens.sort();
        self.sequences.sort();""", """        self.tokens = token_idxs.iter().map(|&id| self.tokens[id].clone()).collect();
        self.sequences.sort_by(|a, b| a.string.cmp(&b.string));"""))
same("r ts sort helper", (T, """        let mut token_idxs = (0..self.tokens.len()).collect::<Vec<usize>>();
        token_idxs.sort_by_key(|&id| &self.tokens[id]);

        let mut new_indices = vec![0; self.tokens.len()];
        for (new_pos, &current_pos) in token_idxs.iter().enumerate() {
            new_indices[current_pos] = new_pos;
        }

        for seq""", """        let new_indices = self.sorted_positions();

        for seq"""), (T, "    pub fn sort(&mut self) {", """    /// For each token, its position after sorting.
    fn sorted_positions(&self) -> Vec<usize> {
        let n = self.tokens.len();
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by(|&a, &b| self.tokens[a].cmp(&self.tokens[b]));

        let mut positions = vec![0; n];
        for new_pos in 0..n {
            positions[order[new_pos]] = new_pos;
        }
        positions
    }

    pub fn sort(&mut self) {"""))

# ---- stats2.rs
same("r st merge zip", (S, """        for i in 0..self.token_counts.len() {
            self.token_counts[i] += other.token_counts[i];
        }
        for i in 0..self.seq_counts.len() {
            self.seq_counts[i] += other.seq_counts[i];
        }
        for i in 0..self.pair_counts.len() {
            self.pair_counts[i] += other.pair_counts[i];
        }""", """        add_counts(&mut self.token_counts, &other.token_counts);
        add_counts(&mut self.seq_counts, &other.seq_counts);
        add_counts(&mut self.pair_counts, &other.pair_counts);"""), (S, "impl TokenStats {\n", """fn add_counts(counts: &mut [u64], other: &[u64]) {
    assert_eq!(counts.len(), other.len());
    for (count, other_count) in counts.iter_mut().zip(other.iter()) {
        *count += *other_count;
    }
}

impl TokenStats {
"""))
same("r st merge enumerate", (S, """        for i in 0..self.token_counts.len() {
            self.token_counts[i] += other.token_counts[i];
        }
        for i in 0..self.seq_counts.len() {
            self.seq_counts[i] += other.seq_counts[i];
        }
        for i in 0..self.pair_counts.len() {
            self.pair_counts[i] += other.pair_counts[i];
        }""", """        for (i, count) in self.pair_counts.iter_mut().enumerate() {
            *count += other.pair_counts[i];
        }
        for (i, count) in self.token_counts.iter_mut().enumerate() {
            *count += other.token_counts[i];
        }
        for (i, count) in self.seq_counts.iter_mut().enumerate() {
            *count += other.seq_counts[i];
        }"""))
same("r st merge while", (S, """        for i in 0..self.pair_counts.len() {
            self.pair_counts[i] += other.pair_counts[i];
        }""", """        let mut i = 0;
        while i < self.pair_counts.len() {
            self.pair_counts[i] = self.pair_counts[i] + other.pair_counts[i];
            i += 1;
        }"""))
same("r st merge destructure", (S, """        self.total_tokens += other.total_tokens;
        self.scanned_bytes += other.scanned_bytes;
""", """        let TokenStats { total_tokens, scanned_bytes, .. } = other;
        self.scanned_bytes += scanned_bytes;
        self.total_tokens += total_tokens;
"""))
same("r st clone struct update", (S, """        TokenStats {
            token_set: self.token_set.clone(),
            total_tokens: self.total_tokens,
            initial_size: self.initial_size,
            scanned_bytes: self.scanned_bytes,
            token_counts: self.token_counts.clone(),
            seq_counts: self.seq_counts.clone(),
            pair_counts: Vec::new(),
        }""", """        let mut copy = self.clone();
        copy.pair_counts = Vec::new();
        copy"""))
same("r st new ntokens", (S, """        let ntokens = token_set.tokens.len();
        let nseqs = token_set.sequences.len();
        TokenStats {
            token_set,
            total_tokens: 0,
            initial_size,
            scanned_bytes: 0,
            token_counts: vec![0; ntokens],
            seq_counts: vec![0; nseqs],
            pair_counts: vec![0; ntokens*ntokens],
        }""", """        let ntokens = token_set.ntokens();
        let token_counts = vec![0; ntokens];
        let seq_counts = vec![0; token_set.sequences.len()];
        let pair_counts = vec![0; ntokens * ntokens];
        Self {
            token_set,
            initial_size,
            total_tokens: 0,
            scanned_bytes: 0,
            token_counts,
            seq_counts,
            pair_counts,
        }"""))
same("r st to_json", (S, """        let mut result = self.token_set.to_json();

        let mut stats = json!({
            "ntokens": self.ntokens(),
            "total_tokens": self.total_tokens,
            "scanned_bytes": self.scanned_bytes,
        });
        if let Some(s) = self.initial_size {
            stats["initial_size"] = s.into();
            stats["bytes_per_token"] = (s as f64 / self.total_tokens as f64).into();
        }

        result["stats"] = stats;

        result""", """        let mut result = self.token_set.to_json();
        result["stats"] = self.stats_to_json();
        result"""), (S, "    pub fn merge(", """    fn stats_to_json(&self) -> Value {
        let mut stats = json!({
            "ntokens": self.token_set.ntokens(),
            "total_tokens": self.total_tokens,
            "scanned_bytes": self.scanned_bytes,
        });
        if let Some(size) = self.initial_size {
            let ratio = size as f64 / self.total_tokens as f64;
            stats["initial_size"] = json!(size);
            stats["bytes_per_token"] = json!(ratio);
        }
        stats
    }

    pub fn merge("""))

# ---- tokenizer2.rs
same("r tk push_span helper", (Z, """        // Populate tokens
        for (idx, token) in token_set.tokens.iter().enumerate() {
            if let Token::Str(string) = token {
                if span_by_str.insert(string.clone(), spans.len()).is_some() {
                    dbg!(&token_set.tokens);
                    dbg!(string);
                    dbg!(spans);
                    dbg!(span_by_str);
                    panic!();
                }
                spans.push(Span {
                    content: SpanContent::Token(idx),
                    string: string.clone(),
                    suffix_span: 0,
                    cost: 1,
                })
            }
        }

        // Populate sequences
        for (idx, seq) in token_set.sequences.iter().enumerate() {
            assert!(span_by_str
                .insert(seq.string.clone(), spans.len())
                .is_none());
            spans.push(Span {
                content: SpanContent::Sequence(idx),
                string: seq.string.clone(),
                suffix_span: 0,
                cost: seq.tokens.len() as u64,
            })
        }
""", """        let mut add_span = |content: SpanContent, string: &[u8], cost: u64| {
            let previous = span_by_str.insert(string.to_vec(), spans.len());
            assert!(previous.is_none(), "Duplicate string {:?}", string);
            spans.push(Span {
                content,
                string: string.to_vec(),
                suffix_span: 0,
                cost,
            });
        };

        // Populate tokens
        for (idx, token) in token_set.tokens.iter().enumerate() {
            match token {
                Token::Str(string) => add_span(SpanContent::Token(idx), string, 1),
                Token::Ext(_) => {}
            }
        }

        // Populate sequences
        for (idx, seq) in token_set.sequences.iter().enumerate() {
            add_span(
                SpanContent::Sequence(idx),
                &seq.string,
                seq.tokens.len() as u64,
            );
        }
"""))
same("r tk suffix helper", (Z, """        // Populate suffix spans
        for span in spans[1..].iter_mut() {
            for start in 1..=(span.string.len() - 1) {
                let suffix = &span.string[start..];
                if let Some(&idx) = span_by_str.get(suffix) {
                    span.suffix_span = idx;
                    break;
                }
            }
        }
""", """        // Populate suffix spans
        for i in 1..spans.len() {
            spans[i].suffix_span = Self::longest_suffix(&spans[i].string, 1, &span_by_str);
        }
"""), (Z, """                let mut suffix_span = 0;

                for start in 0..span_prefix.len() {
                    if let Some(&idx) = span_by_str.get(&span_prefix[start..]) {
                        suffix_span = idx;
                        break;
                    }
                }

                assert!(suffix_span > 0);
""", """                let suffix_span = Self::longest_suffix(&span_prefix, 0, span_by_str);

                assert!(suffix_span > 0);
"""), (Z, """                let mut suffix_id = 0;

                for start in 0..suffix.len() {
                    let suffix_suffix = &suffix[start..];

                    if let Some(&id) = state_by_str.get(suffix_suffix) {
                        suffix_id = id;
                        break;
                    }
                }

                assert!""", """                let suffix_id = Self::longest_suffix(&suffix, 0, &state_by_str);

                assert!"""), (Z, "    fn create_suffix_states(", """    /// Looks up the longest suffix of `string`, starting from `min_start` or later.
    fn longest_suffix(
        string: &[u8],
        min_start: usize,
        index: &HashMap<Vec<u8>, usize>,
    ) -> usize {
        for start in min_start..string.len() {
            if let Some(&idx) = index.get(&string[start..]) {
                return idx;
            }
        }
        0
    }

    fn create_suffix_states("""))
same("r tk states two passes", (Z, """        for state in suffix_states.iter_mut() {
            let mut suffix = state.suffix.to_vec();

            for last_byte in 0..=255 {
                suffix.push(last_byte);
""", """        for i in 0..suffix_states.len() {
            let state = &mut suffix_states[i];
            let mut suffix = state.suffix.clone();

            for last_byte in 0..=u8::MAX {
                suffix.push(last_byte);
"""))
same("r tk transitions fn", (Z, """        for state in suffix_states.iter_mut() {
            let mut suffix = state.suffix.to_vec();

            for last_byte in 0..=255 {
                suffix.push(last_byte);

                let mut suffix_id = 0;

                for start in 0..suffix.len() {
                    let suffix_suffix = &suffix[start..];

                    if let Some(&id) = state_by_str.get(suffix_suffix) {
                        suffix_id = id;
                        break;
                    }
                }

                assert!(suffix_id > 0);
                state.next[last_byte as usize] = suffix_id;

                suffix.pop();
            }
        }

        suffix_states
    }
""", """        Self::fill_transitions(&mut suffix_states, &state_by_str);

        suffix_states
    }

    fn fill_transitions(states: &mut [SuffixState], state_by_str: &HashMap<Vec<u8>, usize>) {
        for state in states {
            for last_byte in 0..=255u8 {
                let mut suffix = state.suffix.clone();
                suffix.push(last_byte);

                let suffix_id = (0..suffix.len())
                    .find_map(|start| state_by_str.get(&suffix[start..]).copied())
                    .unwrap();

                state.next[usize::from(last_byte)] = suffix_id;
            }
        }
    }
"""))
same("r tk states entry", (Z, """                if state_by_str.contains_key(&span_prefix) {
                    continue;
                }

                let mut suffix_span = 0;

                for start in 0..span_prefix.len() {
                    if let Some(&idx) = span_by_str.get(&span_prefix[start..]) {
                        suffix_span = idx;
                        break;
                    }
                }

                assert!(suffix_span > 0);

                let suffix_state = SuffixState::new(span_prefix, suffix_span);

                state_by_str.insert(suffix_state.suffix.clone(), suffix_states.len());
                suffix_states.push(suffix_state);
""", """                if !state_by_str.contains_key(&span_prefix) {
                    let suffix_span = (0..end)
                        .find_map(|start| span_by_str.get(&span_prefix[start..]))
                        .copied()
                        .expect("Every byte must be covered");

                    state_by_str.insert(span_prefix.clone(), suffix_states.len());
                    suffix_states.push(SuffixState::new(span_prefix, suffix_span));
                }
"""))
same("r tk relax helper", (Z, """            let mut best_cost_state: Option<CostState> = None;
            let mut span_idx = state.span_idx;

            while span_idx != 0 {
                let span = &self.spans[span_idx];
                let prev_cost = cost_state[cost_state.len() - span.string.len()].cost;
                let cost = prev_cost + span.cost;
                if best_cost_state.is_none() || best_cost_state.unwrap().cost > cost {
                    best_cost_state = Some(CostState {
                        cost,
                        span: span_idx,
                    });
                }

                span_idx = span.suffix_span;
            }

            cost_state.push(best_cost_state.unwrap());
        }
""", """            let best = self.best_span(state.span_idx, cost_state);
            cost_state.push(best);
        }
"""), (Z, "    fn update_stats(", """    /// The cheapest way to reach the next position.
    fn best_span(&self, longest_span: usize, cost_state: &[CostState]) -> CostState {
        let position = cost_state.len();
        let mut best: Option<CostState> = None;
        let mut span_idx = longest_span;

        while span_idx != 0 {
            let span = &self.spans[span_idx];
            let cost = cost_state[position - span.string.len()].cost + span.cost;
            match best {
                Some(current) if current.cost <= cost => {}
                _ => best = Some(CostState { cost, span: span_idx }),
            }
            span_idx = span.suffix_span;
        }

        best.unwrap()
    }

    fn update_stats("""))
same("r tk loop break", (Z, """            while span_idx != 0 {
                let span = &self.spans[span_idx];
                let prev_cost = cost_state[cost_state.len() - span.string.len()].cost;
                let cost = prev_cost + span.cost;
                if best_cost_state.is_none() || best_cost_state.unwrap().cost > cost {
                    best_cost_state = Some(CostState {
                        cost,
                        span: span_idx,
                    });
                }

                span_idx = span.suffix_span;
            }
""", """            loop {
                if span_idx == 0 {
                    break;
                }
                let span = &self.spans[span_idx];
                let start = cost_state.len() - span.string.len();
                let candidate = CostState {
                    cost: cost_state[start].cost + span.cost,
                    span: span_idx,
                };
                best_cost_state = match best_cost_state {
                    None => Some(candidate),
                    Some(best) if candidate.cost < best.cost => Some(candidate),
                    other => other,
                };

                span_idx = span.suffix_span;
            }
"""))
same("r tk state idx", (Z, """        let mut state = &self.suffix_states[0];

        for &byte in bytes.iter() {
            state = &self.suffix_states[state.next[byte as usize]];
""", """        let mut state_idx = 0;

        for i in 0..bytes.len() {
            let byte = bytes[i];
            state_idx = self.suffix_states[state_idx].next[byte as usize];
            let state = &self.suffix_states[state_idx];
"""))
same("r tk first unwrap", (Z, """        cost_state.clear();
        cost_state.push(CostState { cost: 0, span: 0 });
""", """        cost_state.clear();
        cost_state.reserve(bytes.len() + 1);
        cost_state.push(CostState { cost: 0, span: 0 });
"""))
same("r tk update order", (Z, """        stats.total_tokens += cost_state.last().unwrap().cost;
        stats.scanned_bytes += bytes.len() as u64;

        let ntokens""", """        stats.scanned_bytes += bytes.len() as u64;
        stats.total_tokens += cost_state[bytes.len()].cost;

        let ntokens"""))
same("r tk backtrack fn", (Z, """        let ntokens = stats.token_set.ntokens();

        let mut span_counts = vec![0; self.spans.len()];
        let mut next_token = None;
        let mut pos = bytes.len();

        while pos > 0 {
            let span_idx = cost_state[pos].span;
            span_counts[span_idx] += 1;

            let span = &self.spans[span_idx];
            next_token = if let SpanContent::Token(token) = span.content {
                if let Some(next) = next_token {
                    let pair_id = token * ntokens + next;
                    stats.pair_counts[pair_id] += 1;
                }

                Some(token)
            } else {
                None
            };

            pos -= span.string.len();
        }
""", """        let span_counts = self.count_spans(cost_state, bytes.len(), stats);
"""), (Z, "    fn update_stats(", """    /// Walks back over the chosen spans, counting them and the token pairs.
    fn count_spans(&self, cost_state: &[CostState], len: usize, stats: &mut TokenStats) -> Vec<u64> {
        let ntokens = stats.token_set.ntokens();
        let mut span_counts = vec![0; self.spans.len()];
        let mut next_token: Option<usize> = None;
        let mut pos = len;

        while pos != 0 {
            let span_idx = cost_state[pos].span;
            let span = &self.spans[span_idx];
            span_counts[span_idx] += 1;
            pos -= span.string.len();

            match span.content {
                SpanContent::Token(token) => {
                    if let Some(next) = next_token.replace(token) {
                        stats.pair_counts[token * ntokens + next] += 1;
                    }
                }
                _ => next_token = None,
            }
        }

        span_counts
    }

    fn update_stats("""))
same("r tk backtrack match", (Z, """            next_token = if let SpanContent::Token(token) = span.content {
                if let Some(next) = next_token {
                    let pair_id = token * ntokens + next;
                    stats.pair_counts[pair_id] += 1;
                }

                Some(token)
            } else {
                None
            };
""", """            let token = match span.content {
                SpanContent::Token(token) => Some(token),
                SpanContent::Sequence(_) | SpanContent::None => None,
            };
            if let (Some(first), Some(second)) = (token, next_token) {
                stats.pair_counts[first * ntokens + second] += 1;
            }
            next_token = token;
"""))
same("r tk counts skip zero", (Z, """            let count = span_counts[span_idx];
            let span = &self.spans[span_idx];
            match""", """            let count = span_counts[span_idx];
            if count == 0 {
                continue;
            }
            let span = &self.spans[span_idx];
            match"""))

# ---- batch_tokenize.rs
same("r bt sync uses closure", (B, """    for sample in sampler.iter() {
        tokenizer.process_slice(sample.as_bytes(), &mut stats, &mut buffer);
    }

    stats
}

fn worker""", """    let mut samples = sampler.iter();
    while let Some(sample) = samples.next() {
        let data = sample.as_bytes();
        tokenizer.process_slice(data, &mut stats, &mut buffer);
    }

    stats
}

fn worker"""))
same("r bt worker whilelet", (B, """    loop {
        let job = jobs_rx.lock().unwrap().recv();
        let data = {
            match job {
                Ok(ref sample) => sample.as_bytes(),
                Err(_) => break,
            }
        };

        assert!(!data.is_empty());
        tokenizer.process_slice(data, &mut stats, &mut buffer);
    }
""", """    while let Some(sample) = next_job(&jobs_rx) {
        let data = sample.as_bytes();
        assert!(!data.is_empty());
        tokenizer.process_slice(data, &mut stats, &mut buffer);
    }
"""), (B, "fn worker(", """fn next_job<'a>(jobs_rx: &Mutex<Receiver<Sample<'a>>>) -> Option<Sample<'a>> {
    jobs_rx.lock().unwrap().recv().ok()
}

fn worker("""))
same("r bt worker match", (B, """        let job = jobs_rx.lock().unwrap().recv();
        let data = {
            match job {
                Ok(ref sample) => sample.as_bytes(),
                Err(_) => break,
            }
        };

        assert!(!data.is_empty());
        tokenizer.process_slice(data, &mut stats, &mut buffer);
""", """        let job = {
            let receiver = jobs_rx.lock().unwrap();
            receiver.recv()
        };
        match job {
            Err(_) => break,
            Ok(sample) => {
                let data = sample.as_bytes();
                assert!(data.len() > 0);
                tokenizer.process_slice(data, &mut stats, &mut buffer);
            }
        }
"""))
same("r bt spawn iter", (B, """        let mut join_handles = Vec::new();

        for _ in 0..nthreads {
            let jobs_rx_clone = jobs_rx_shared.clone();
            let results_tx_clone = results_tx.clone();
            join_handles.push(s.spawn(|| worker(&tokenizer, jobs_rx_clone, results_tx_clone)));
        }
""", """        let tokenizer = &tokenizer;
        let join_handles: Vec<_> = (0..nthreads)
            .map(|_| {
                let jobs_rx = Arc::clone(&jobs_rx_shared);
                let results_tx = results_tx.clone();
                s.spawn(move || worker(tokenizer, jobs_rx, results_tx))
            })
            .collect();
"""), (B, """        while !join_handles.is_empty() {
            join_handles.pop().unwrap().join().unwrap();
        }
""", """        for handle in join_handles {
            handle.join().unwrap();
        }
"""))
same("r bt worker returns", (B, """    results_tx: Sender<TokenStats>,
) {
    let mut stats""", """) -> TokenStats {
    let mut stats"""), (B, """    results_tx.send(stats).unwrap();
}""", """    stats
}"""), (B, "use std::sync::mpsc::{self, Receiver, Sender};", "use std::sync::mpsc::{self, Receiver};"),
     (B, "    let (results_tx, results_rx) = mpsc::channel::<TokenStats>();\n", ""),
     (B, """            let results_tx_clone = results_tx.clone();
            join_handles.push(s.spawn(|| worker(&tokenizer, jobs_rx_clone, results_tx_clone)));""", """            join_handles.push(s.spawn(|| worker(&tokenizer, jobs_rx_clone)));"""),
     (B, "        std::mem::drop(results_tx);\n", ""),
     (B, """        for _ in 0..nthreads {
            let result = results_rx.recv().unwrap();
            stats.merge(&result);
        }
""", ""), (B, """        while !join_handles.is_empty() {
            join_handles.pop().unwrap().join().unwrap();
        }
""", """        for handle in join_handles {
            let result = handle.join().unwrap();
            stats.merge(&result);
        }
"""))
same("r bt parallel fn", (B, """    if sampler.total_size() < 1 << 25 {
        return tokenize_file_sync(token_set, sampler, initial_size);
    }

    let tokenizer""", """    if sampler.total_size() < 1 << 25 {
        tokenize_file_sync(token_set, sampler, initial_size)
    } else {
        tokenize_file_parallel(token_set, sampler, initial_size)
    }
}

fn tokenize_file_parallel<'a, S: Sampler<'a>>(
    token_set: &TokenSet,
    sampler: &'a S,
    initial_size: Option<u64>,
) -> TokenStats {
    let tokenizer"""))
same("r bt feeder fn", (B, """        for sample in sampler.iter() {
            jobs_tx.send(sample).unwrap();
        }

        std::mem::drop(jobs_tx);
""", """        send_samples(sampler, jobs_tx);
"""), (B, "use std::sync::mpsc::{self, Receiver, Sender};", "use std::sync::mpsc::{self, Receiver, Sender, SyncSender};"),
     (B, "pub fn tokenize_file<", """/// Sends all samples and closes the channel.
fn send_samples<'a, S: Sampler<'a>>(sampler: &'a S, jobs_tx: SyncSender<Sample<'a>>) {
    for sample in sampler.iter() {
        jobs_tx.send(sample).unwrap();
    }
}

pub fn tokenize_file<"""))
same("r bt collect fn", (B, """        for _ in 0..nthreads {
            let result = results_rx.recv().unwrap();
            stats.merge(&result);
        }
""", """        let mut received = 0;
        while received < nthreads {
            let result = results_rx.recv().expect("a worker has failed");
            stats.merge(&result);
            received += 1;
        }
"""))
same("r bt for results", (B, """        for _ in 0..nthreads {
            let result = results_rx.recv().unwrap();
            stats.merge(&result);
        }
""", """        // Ends when all workers are finished; a failed one makes join() below fail.
        for result in results_rx.iter() {
            stats.merge(&result);
        }
"""))
same("r bt cache match", (B, """        if let Some(stats) = self.cache.get(&key) {
            return stats.clone();
        }

        let mut stats = tokenize_file(&token_set, self.sampler, self.initial_size);
        stats.pair_counts.clear();
        stats.pair_counts.shrink_to_fit();
        self.cache.insert(key.clone(), stats.clone());
        stats""", """        match self.cache.get(&key) {
            Some(stats) => stats.clone(),
            None => {
                let stats = self.tokenize(&token_set).clone_without_pairs();
                self.cache.insert(key, stats.clone());
                stats
            }
        }"""), (B, """        let stats = tokenize_file(&token_set, self.sampler, self.initial_size);
        let key""", """        let stats = self.tokenize(&token_set);
        let key"""), (B, "    fn get_key(", """    fn tokenize(&self, token_set: &TokenSet) -> TokenStats {
        tokenize_file(token_set, self.sampler, self.initial_size)
    }

    fn get_key("""))
same("r bt cache key to_string", (B, """        let value = token_set.to_json();
        serde_json::to_string(&value).unwrap()""", "        token_set.to_json().to_string()"))
same("r bt cache or_insert_with", (B, """        if let Some(stats) = self.cache.get(&key) {
            return stats.clone();
        }

        let mut stats = tokenize_file(&token_set, self.sampler, self.initial_size);
        stats.pair_counts.clear();
        stats.pair_counts.shrink_to_fit();
        self.cache.insert(key.clone(), stats.clone());
        stats""", """        let (sampler, initial_size) = (self.sampler, self.initial_size);
        self.cache
            .entry(key)
            .or_insert_with(|| {
                let mut stats = tokenize_file(&token_set, sampler, initial_size);
                stats.pair_counts = Vec::new();
                stats
            })
            .clone()"""))
same("r bt cache sorted helper", (B, """        let mut token_set = token_set.clone();
        token_set.sort();

        let stats""", """        let token_set = sorted(token_set);

        let stats"""), (B, """        let mut token_set = token_set.clone();
        token_set.sort();

        let key""", """        let token_set = sorted(token_set);

        let key"""), (B, "pub struct TokenizerCache", """fn sorted(token_set: &TokenSet) -> TokenSet {
    let mut result = token_set.clone();
    result.sort();
    result
}

pub struct TokenizerCache"""))

# ---- optimize.rs
same("r op valid iter", (O, """    let n = "\\n".as_bytes()[0];
    for i in 0..(s.len() - 2) {
        if s[i] == n && s[i + 1] == n && s[i + 2] != n {
            return false;
        }
    }

    true""", """    !s.windows(3)
        .any(|w| w[0] == b'\\n' && w[1] == b'\\n' && w[2] != b'\\n')"""))
same("r op valid count", (O, """    let n = "\\n".as_bytes()[0];
    for i in 0..(s.len() - 2) {
        if s[i] == n && s[i + 1] == n && s[i + 2] != n {
            return false;
        }
    }

    true""", """    let mut newlines = 0;
    for &b in s {
        if b == b'\\n' {
            newlines += 1;
        } else {
            if newlines >= 2 {
                return false;
            }
            newlines = 0;
        }
    }

    true"""))
same("r op valid nested", (O, """        if s[i] == n && s[i + 1] == n && s[i + 2] != n {
            return false;
        }""", """        let paragraph_break = s[i] == n && s[i + 1] == n;
        if paragraph_break && s[i + 2] != n {
            return false;
        }"""))
same("r op bpe helper", (O, """    let mut new_token = Vec::new();
    let mut token_count = 0;

    for &pair_idx in pairs.iter() {
        let itoken1 = pair_idx / stats.ntokens();
        let itoken2 = pair_idx % stats.ntokens();

        let candidate = match (
            &stats.token_set.tokens[itoken1],
            &stats.token_set.tokens[itoken2],
        ) {
            (Token::Str(s1), Token::Str(s2)) => {
                s1.iter().chain(s2.iter()).cloned().collect::<Vec<u8>>()
            }
            _ => unreachable!(),
        };

        if is_valid_token(&candidate) {
            new_token = candidate;
            token_count = stats.pair_counts[pair_idx];
            break;
        }
    }

    if new_token.is_empty() {
        dbg!(&stats.token_set.tokens);
        dbg!(&stats.token_counts);
        dbg!(&stats.pair_counts);

        return None;
    }

    let mut new_tokenset = stats.token_set.clone();
    new_tokenset.add_token(&new_token);

    Some((new_tokenset, token_count as i64))
}
""", """    for &pair_idx in pairs.iter() {
        let candidate = concat_pair(stats, pair_idx);

        if is_valid_token(&candidate) {
            let mut new_tokenset = stats.token_set.clone();
            new_tokenset.add_token(&candidate);
            return Some((new_tokenset, stats.pair_counts[pair_idx] as i64));
        }
    }

    dbg!(&stats.token_set.tokens);
    dbg!(&stats.token_counts);
    dbg!(&stats.pair_counts);

    None
}

/// The string of two consecutive tokens.
fn concat_pair(stats: &TokenStats, pair_idx: usize) -> Vec<u8> {
    let ntokens = stats.ntokens();
    let first = &stats.token_set.tokens[pair_idx / ntokens];
    let second = &stats.token_set.tokens[pair_idx % ntokens];

    match (first, second) {
        (Token::Str(s1), Token::Str(s2)) => [s1.as_slice(), s2.as_slice()].concat(),
        _ => unreachable!(),
    }
}
"""))
same("r op bpe find", (O, """    let mut new_token = Vec::new();
    let mut token_count = 0;

    for &pair_idx in pairs.iter() {""", """    let mut best: Option<(Vec<u8>, u64)> = None;

    for &pair_idx in pairs.iter() {"""), (O, """        if is_valid_token(&candidate) {
            new_token = candidate;
            token_count = stats.pair_counts[pair_idx];
            break;
        }
    }

    if new_token.is_empty() {
        dbg!(&stats.token_set.tokens);
        dbg!(&stats.token_counts);
        dbg!(&stats.pair_counts);

        return None;
    }

    let mut""", """        if !is_valid_token(&candidate) {
            continue;
        }
        best = Some((candidate, stats.pair_counts[pair_idx]));
        break;
    }

    let (new_token, token_count) = best?;

    let mut"""))
same("r op bpe sort desc", (O, """    let mut pairs = (0..stats.pair_counts.len())
        .filter(|&i| stats.pair_counts[i] > 0)
        .collect::<Vec<usize>>();
    pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));
""", """    let mut pairs: Vec<usize> = Vec::new();
    for (i, &count) in stats.pair_counts.iter().enumerate() {
        if count > 0 {
            pairs.push(i);
        }
    }
    pairs.sort_by(|&a, &b| stats.pair_counts[b].cmp(&stats.pair_counts[a]));
"""))
same("r op bpe candidate extend", (O, """            (Token::Str(s1), Token::Str(s2)) => {
                s1.iter().chain(s2.iter()).cloned().collect::<Vec<u8>>()
            }""", """            (Token::Str(s1), Token::Str(s2)) => {
                let mut joined = s1.clone();
                joined.extend_from_slice(s2);
                joined
            }"""))
same("r op count bytes helper", (O, """    let mut byte_cost: [Option<u64>; 256] = [None; 256];

    for token in tokenset.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() == 1 {
                let byte = s[0];
                assert!(byte_cost[byte as usize].is_none());
                byte_cost[byte as usize] = Some(1);
            }
        }
    }

    for seq in tokenset.sequences.iter() {
        if seq.string.len() == 1 {
            let byte = seq.string[0];
            assert!(byte_cost[byte as usize].is_none());
            byte_cost[byte as usize] = Some(seq.tokens.len() as u64);
        }
    }

    let mut total = 0;
""", """    let byte_cost = byte_costs(tokenset);
    let mut total = 0;
"""), (O, "fn count_tokens_in_bytes(", """fn byte_costs(tokenset: &TokenSet) -> [Option<u64>; 256] {
    let mut byte_cost = [None; 256];

    for token in &tokenset.tokens {
        if let Token::Str(s) = token {
            if let [byte] = s[..] {
                assert!(byte_cost[byte as usize].is_none());
                byte_cost[byte as usize] = Some(1);
            }
        }
    }

    for seq in &tokenset.sequences {
        if let [byte] = seq.string[..] {
            assert!(byte_cost[byte as usize].is_none());
            byte_cost[byte as usize] = Some(seq.tokens.len() as u64);
        }
    }

    byte_cost
}

fn count_tokens_in_bytes("""))
same("r op add_byte vars", (O, """    let old_count = count_tokens_in_bytes(&stats.token_set, stats);
    let new_tokenset = BO::optimize_bytes(
        &stats,
        stats.token_set.ntokens() - stats.token_set.n_long_tokens() + 1,
    );

    if new_tokenset.ntokens() == stats.token_set.ntokens() {
        return None;
    }

    let new_count = count_tokens_in_bytes(&new_tokenset, stats);
    Some((new_tokenset, old_count as i64 - new_count as i64))""", """    let token_set = &stats.token_set;
    let n_short_tokens = token_set.ntokens() - token_set.n_long_tokens();
    let new_tokenset = BO::optimize_bytes(stats, n_short_tokens + 1);

    if new_tokenset.ntokens() == token_set.ntokens() {
        None
    } else {
        let old_count = count_tokens_in_bytes(token_set, stats) as i64;
        let new_count = count_tokens_in_bytes(&new_tokenset, stats) as i64;
        Some((new_tokenset, old_count - new_count))
    }"""))
same("r op n_short method", (O, """        stats.token_set.ntokens() - stats.token_set.n_long_tokens() + 1,
""", """        stats.token_set.n_short_tokens() + 1,
"""), (O, """    if token_set.ntokens() - token_set.n_long_tokens() > token_set.min_bytes_ext_tokens() {
        let new_token_set =
            BO::optimize_bytes(&stats, token_set.ntokens() - token_set.n_long_tokens() - 1);""", """    let n_short_tokens = token_set.n_short_tokens();
    if n_short_tokens > token_set.min_bytes_ext_tokens() {
        let new_token_set = BO::optimize_bytes(&stats, n_short_tokens - 1);"""),
     (T, "    pub fn n_long_tokens(", """    pub fn n_short_tokens(&self) -> usize {
        self.ntokens() - self.n_long_tokens()
    }

    pub fn n_long_tokens("""))
same("r op add_token or", (O, """    match (maybe_tokenset_byte, maybe_tokenset_token) {
        (None, None) => None,
        (Some((new_token_set, _)), None) => Some(new_token_set),
        (None, Some((new_token_set, _))) => Some(new_token_set),
        (Some((token_set_byte, byte_count)), Some((token_set_token, token_count))) => {
            if byte_count > token_count {
                Some(token_set_byte)
            } else {
                Some(token_set_token)
            }
        }
    }""", """    let best = match (maybe_tokenset_byte, maybe_tokenset_token) {
        (Some(byte), Some(token)) => Some(if byte.1 > token.1 { byte } else { token }),
        (byte, token) => byte.or(token),
    };
    best.map(|(new_token_set, _)| new_token_set)"""))
same("r op grow fn", (O, """    if token_set.ntokens() < ntokens {
        if let Some(new_tokenset) = add_token(token_set, bytes_optimizer, tokenizer_cache) {
            let stats = tokenizer_cache.get_stats(&new_tokenset);
            println!("{}", show_tokenset_diff(token_set, &new_tokenset));
            println!("processed bytes / token: {}", stats.bytes_per_token());
            return Some(stats);
        } else {
            return None;
        }
    }
""", """    if token_set.ntokens() < ntokens {
        let new_tokenset = add_token(token_set, bytes_optimizer, tokenizer_cache)?;
        let stats = tokenizer_cache.get_stats(&new_tokenset);
        report(token_set, &stats);
        return Some(stats);
    }
"""), (O, """                println!("{}", show_tokenset_diff(token_set, &new_token_set));
                println!("processed bytes / token: {}", new_stats.bytes_per_token());
                return Some(new_stats);""", """                report(token_set, &new_stats);
                return Some(new_stats);"""), (O, """fn remove_add_token<""", """fn report(old_token_set: &TokenSet, stats: &TokenStats) {
    println!("{}", show_tokenset_diff(old_token_set, &stats.token_set));
    println!("processed bytes / token: {}", stats.bytes_per_token());
}

fn remove_add_token<"""))
same("r op split phases", (O, """    assert_eq!(token_set.ntokens(), ntokens);
    let stats = tokenizer_cache.get_stats(token_set);

    if token_set.ntokens() - token_set.n_long_tokens() > token_set.min_bytes_ext_tokens() {
        let new_token_set =
            BO::optimize_bytes(&stats, token_set.ntokens() - token_set.n_long_tokens() - 1);
        assert!(new_token_set.ntokens() == ntokens - 1);
        let new_stats = tokenizer_cache.get_stats_with_pairs(&new_token_set);
        if let Some((new_token_set, _)) = add_token_bpe(&new_stats) {
            let new_stats = tokenizer_cache.get_stats(&new_token_set);
            if new_stats.total_tokens < stats.total_tokens {
                println!("{}", show_tokenset_diff(token_set, &new_token_set));
                println!("processed bytes / token: {}", new_stats.bytes_per_token());
                return Some(new_stats);
            }
        }
    }

    let mut to_remove""", """    assert_eq!(token_set.ntokens(), ntokens);
    let stats = tokenizer_cache.get_stats(token_set);

    if let Some(new_stats) = replace_byte::<S, BO>(&stats, token_set, tokenizer_cache) {
        println!("{}", show_tokenset_diff(token_set, &new_stats.token_set));
        println!("processed bytes / token: {}", new_stats.bytes_per_token());
        return Some(new_stats);
    }

    let mut to_remove"""), (O, "fn remove_add_token<", """/// Tries to replace a byte token with a multi-byte one.
fn replace_byte<'a, S: Sampler<'a>, BO: BytesOptimizer>(
    stats: &TokenStats,
    token_set: &TokenSet,
    tokenizer_cache: &mut TokenizerCache<'a, S>,
) -> Option<TokenStats> {
    let n_byte_tokens = token_set.ntokens() - token_set.n_long_tokens();
    if n_byte_tokens <= token_set.min_bytes_ext_tokens() {
        return None;
    }

    let smaller = BO::optimize_bytes(stats, n_byte_tokens - 1);
    assert_eq!(smaller.ntokens(), token_set.ntokens() - 1);
    let smaller_stats = tokenizer_cache.get_stats_with_pairs(&smaller);
    let (candidate, _) = add_token_bpe(&smaller_stats)?;
    let candidate_stats = tokenizer_cache.get_stats(&candidate);
    if candidate_stats.total_tokens < stats.total_tokens {
        Some(candidate_stats)
    } else {
        None
    }
}

fn remove_add_token<"""))
same("r op to_remove filter", (O, """    let mut to_remove = vec![];
    for token in token_set.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() > 1 {
                to_remove.push(s.clone())
            }
        }
    }
""", """    let mut to_remove: Vec<Vec<u8>> = token_set
        .tokens
        .iter()
        .filter_map(|token| match token {
            Token::Str(s) if s.len() > 1 => Some(s.clone()),
            _ => None,
        })
        .collect();
"""))
same("r op sort cached key", (O, """    to_remove.sort_unstable_by_key(|s| removal_count.get(s).unwrap_or(&0));
""", """    to_remove.sort_by_cached_key(|s| removal_count.get(s).copied().unwrap_or(0));
"""))
same("r op try_replace", (O, """        let mut new_token_set = token_set.clone();
        print!(" {}", show_bytes(s.as_slice()));
        std::io::stdout().flush().unwrap();
        let token_idx = new_token_set.find_token(&s).unwrap();
        new_token_set.remove_token(token_idx);
        assert!(new_token_set.ntokens() == ntokens - 1);

        if let Some(newer_tokenset)""", """        print!(" {}", show_bytes(s.as_slice()));
        std::io::stdout().flush().unwrap();
        let new_token_set = without_token(token_set, &s);
        assert!(new_token_set.ntokens() == ntokens - 1);

        if let Some(newer_tokenset)"""), (O, "fn remove_add_token<", """fn without_token(token_set: &TokenSet, string: &[u8]) -> TokenSet {
    let mut result = token_set.clone();
    let idx = result.find_token(string).unwrap();
    result.remove_token(idx);
    result
}

fn remove_add_token<"""))
same("r op removal counter", (O, """        *removal_count.entry(s.clone()).or_insert(0) += 1;
""", """        match removal_count.get_mut(&s) {
            Some(count) => *count += 1,
            None => {
                removal_count.insert(s.clone(), 1);
            }
        }
"""))
same("r op continue style", (O, """        if let Some(newer_tokenset) = add_token(&new_token_set, bytes_optimizer, tokenizer_cache) {
            let newer_stats = tokenizer_cache.get_stats(&newer_tokenset);
            if newer_stats.total_tokens < stats.total_tokens {
                println!();
                println!("{}", show_tokenset_diff(token_set, &newer_tokenset));
                println!("processed bytes / token: {}", newer_stats.bytes_per_token());
                return Some(newer_stats);
            }
        }
""", """        let newer_tokenset = match add_token(&new_token_set, bytes_optimizer, tokenizer_cache) {
            Some(newer_tokenset) => newer_tokenset,
            None => continue,
        };
        let newer_stats = tokenizer_cache.get_stats(&newer_tokenset);
        if newer_stats.total_tokens >= stats.total_tokens {
            continue;
        }
        println!();
        println!("{}", show_tokenset_diff(token_set, &newer_tokenset));
        println!("processed bytes / token: {}", newer_stats.bytes_per_token());
        return Some(newer_stats);
"""))
same("r op step map", (O, """    if let Some(new_stats) = remove_add_token(
        token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        removal_count,
    ) {
        assert!(new_stats.token_set.ntokens() <= ntokens);
        return Some(new_stats.token_set);
    }
""", """    let new_token_set = remove_add_token(
        token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        removal_count,
    )?
    .token_set;
    assert!(new_token_set.ntokens() <= ntokens);
    Some(new_token_set)
"""), (O, """    //     return Some(new_stats.token_set);
    // }

    None
}""", """    //     return Some(new_stats.token_set);
    // }
}"""))
same("r op impl whilelet", (O, """    loop {
        if let Some(new_token_set) = optimization_step(
            &token_set,
            ntokens,
            bytes_optimizer,
            tokenizer_cache,
            &mut removal_count,
        ) {
            token_set = new_token_set;
            if Instant::now() - last_save > Duration::from_secs(60) {
                save_tokens(&token_set, tokens_dir);
                last_save = Instant::now();
            }
        } else {
            break;
        }
    }

    token_set.sort();
    tokenizer_cache.get_stats(&token_set).clone()""", """    while let Some(new_token_set) = optimization_step(
        &token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        &mut removal_count,
    ) {
        token_set = new_token_set;
        if last_save.elapsed() > Duration::from_secs(60) {
            save_tokens(&token_set, tokens_dir);
            last_save = Instant::now();
        }
    }

    tokenizer_cache.get_stats(&token_set)"""))
same("r op initial fn", (O, """    let token_set = match (pretrained_token_set, token_type) {
        (Some(ts), _) => ts,
        (None, TokenType::Bits1) => TokenSet::new_bits1(processing, true),
        (None, TokenType::Bits2) => TokenSet::new_bits2(processing, true),
        (None, TokenType::Bits4) => TokenSet::new_bits4(processing, true),
        (None, TokenType::Bytes) => TokenSet::new_bytes(processing),
        (None, TokenType::BytesHuff) => {
            let token_set = TokenSet::new_bytes(processing);
            let stats = tokenizer_cache.get_stats(&token_set);
            HuffOptimizer::optimize_bytes(&stats, ntokens)
        }
    };
""", """    let token_set = pretrained_token_set.unwrap_or_else(|| {
        initial_token_set(ntokens, processing, token_type, &mut tokenizer_cache)
    });
"""), (O, "pub fn optimize_tokenset<", """fn initial_token_set<'a, S: Sampler<'a>>(
    ntokens: usize,
    processing: Processing,
    token_type: TokenType,
    tokenizer_cache: &mut TokenizerCache<'a, S>,
) -> TokenSet {
    match token_type {
        TokenType::Bits1 => TokenSet::new_bits1(processing, true),
        TokenType::Bits2 => TokenSet::new_bits2(processing, true),
        TokenType::Bits4 => TokenSet::new_bits4(processing, true),
        TokenType::Bytes => TokenSet::new_bytes(processing),
        TokenType::BytesHuff => {
            let bytes_stats = tokenizer_cache.get_stats(&TokenSet::new_bytes(processing));
            HuffOptimizer::optimize_bytes(&bytes_stats, ntokens)
        }
    }
}

pub fn optimize_tokenset<"""))
same("r op diff helper", (O, """    let mut before_set = HashSet::new();
    let mut after_set = HashSet::new();

    for token in before.tokens.iter() {
        before_set.insert(token.clone());
    }
    for token in after.tokens.iter() {
        after_set.insert(token.clone());
    }

    let mut removed = before_set
        .difference(&after_set)
        .map(|t| t.to_string())
        .collect::<Vec<_>>();
    removed.sort();
    let mut added = after_set
        .difference(&before_set)
        .map(|t| t.to_string())
        .collect::<Vec<_>>();
    added.sort();

    format!("{} -> {}", removed.join(" "), added.join(" "))
}""", """    let before_set = before.tokens.iter().collect::<HashSet<_>>();
    let after_set = after.tokens.iter().collect::<HashSet<_>>();

    let removed = sorted_difference(&before_set, &after_set);
    let added = sorted_difference(&after_set, &before_set);

    format!("{} -> {}", removed.join(" "), added.join(" "))
}

fn sorted_difference(a: &HashSet<&Token>, b: &HashSet<&Token>) -> Vec<String> {
    let mut strings: Vec<String> = a.difference(b).map(|t| t.to_string()).collect();
    strings.sort();
    strings
}"""))
same("r op dispatch generic", (O, """        TokenType::Bits1 | TokenType::Bits2 | TokenType::Bits4 => {
            let bytes_optimizer = SimpleBytesOptimizer {};
            optimize_tokenset_impl(
                token_set,
                ntokens,
                &bytes_optimizer,
                &mut tokenizer_cache,
                tokens_dir,
            )
        }
        TokenType::Bytes => {
            let noop_bytes_optimizer = NoopBytesOptimizer {};
            optimize_tokenset_impl(
                token_set,
                ntokens,
                &noop_bytes_optimizer,
                &mut tokenizer_cache,
                tokens_dir,
            )
        }
        TokenType::BytesHuff => {
            let bytes_optimizer = HuffOptimizer {};
            optimize_tokenset_impl(
                token_set,
                ntokens,
                &bytes_optimizer,
                &mut tokenizer_cache,
                tokens_dir,
            )
        }
    }""", """        TokenType::Bits1 | TokenType::Bits2 | TokenType::Bits4 => optimize_tokenset_impl(
            token_set,
            ntokens,
            &SimpleBytesOptimizer {},
            &mut tokenizer_cache,
            tokens_dir,
        ),
        TokenType::Bytes => optimize_tokenset_impl(
            token_set,
            ntokens,
            &NoopBytesOptimizer {},
            &mut tokenizer_cache,
            tokens_dir,
        ),
        TokenType::BytesHuff => optimize_tokenset_impl(
            token_set,
            ntokens,
            &HuffOptimizer {},
            &mut tokenizer_cache,
            tokens_dir,
        ),
    }"""))

# ---- optimize_bytes.rs
same("r ob simple helper ctor", (Y, """        let mut new_token_set = match stats.token_set.token_type {
            TokenType::Bits1 => {
                TokenSet::new_bits1(stats.token_set.processing, stats.token_set.split_paragraphs)
            }
            TokenType::Bits2 => {
                TokenSet::new_bits2(stats.token_set.processing, stats.token_set.split_paragraphs)
            }
            TokenType::Bits4 => {
                TokenSet::new_bits4(stats.token_set.processing, stats.token_set.split_paragraphs)
            }
            _ => panic!("BytesOptimizer only works for Bits* TokenSet's"),
        };
""", """        let mut new_token_set = empty_bits_token_set(&stats.token_set);
"""), (Y, "impl BytesOptimizer for SimpleBytesOptimizer {", """fn empty_bits_token_set(like: &TokenSet) -> TokenSet {
    let TokenSet { processing, split_paragraphs, .. } = *like;
    match like.token_type {
        TokenType::Bits1 => TokenSet::new_bits1(processing, split_paragraphs),
        TokenType::Bits2 => TokenSet::new_bits2(processing, split_paragraphs),
        TokenType::Bits4 => TokenSet::new_bits4(processing, split_paragraphs),
        TokenType::Bytes | TokenType::BytesHuff => {
            panic!("BytesOptimizer only works for Bits* TokenSet's")
        }
    }
}

impl BytesOptimizer for SimpleBytesOptimizer {"""))
same("r ob shared long tokens", (Y, """        for token in stats.token_set.tokens.iter() {
            if let Token::Str(s) = token {
                if s.len() > 1 {
                    new_token_set.add_token(s);
                }
            }
        }

        new_token_set""", """        copy_long_tokens(&stats.token_set, &mut new_token_set);

        new_token_set"""), (Y, """        for token in token_stats.token_set.tokens.iter() {
            if let Token::Str(s) = token {
                if s.len() > 1 {
                    best_token_set.add_token(s);
                }
            }
        }
""", """        copy_long_tokens(&token_stats.token_set, &mut best_token_set);
"""), (Y, "pub struct SimpleBytesOptimizer {}", """fn copy_long_tokens(from: &TokenSet, to: &mut TokenSet) {
    for token in &from.tokens {
        match token {
            Token::Str(s) if s.len() > 1 => {
                to.add_token(s);
            }
            _ => {}
        }
    }
}

pub struct SimpleBytesOptimizer {}"""))
same("r ob simple take", (Y, """        let selected_bytes = &bytes[..n_byte_tokens];
""", ""), (Y, """        for &byte in selected_bytes.iter() {
            new_token_set.add_token(&[byte]);
        }""", """        for byte in bytes.into_iter().take(n_byte_tokens) {
            new_token_set.add_token(&[byte]);
        }"""))
same("r ob simple counts", (Y, """        for (token_id, token) in stats.token_set.tokens.iter().enumerate() {
            if let Token::Str(s) = token {
                if s.len() == 1 {
                    byte_counts[s[0] as usize] = stats.token_counts[token_id] as i64;
                    single_byte_tokens.push(s.clone());
                }
            }
        }

        for (seq_id, seq) in stats.token_set.sequences.iter().enumerate() {
            if seq.string.len() == 1 {
                byte_counts[seq.string[0] as usize] = stats.seq_counts[seq_id] as i64;
            }
        }

        let mut bytes = (0..=255).collect::<Vec<u8>>();
        bytes.sort_by_key(|&i| -byte_counts[i as usize]);""", """        for (token, &count) in stats.token_set.tokens.iter().zip(&stats.token_counts) {
            match token {
                Token::Str(s) if s.len() == 1 => byte_counts[s[0] as usize] = count,
                _ => {}
            }
        }

        for (seq, &count) in stats.token_set.sequences.iter().zip(&stats.seq_counts) {
            if let &[byte] = seq.string.as_slice() {
                byte_counts[byte as usize] = count;
            }
        }

        let mut bytes: Vec<u8> = (0..=255).collect();
        bytes.sort_by(|&a, &b| byte_counts[b as usize].cmp(&byte_counts[a as usize]));"""),
     (Y, """        let mut byte_counts: [i64; 256] = [0; 256];
        let mut single_byte_tokens = Vec::new();
""", """        let mut byte_counts = [0u64; 256];
"""))
same("r ob simple clamp", (Y, """        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);
""", """        let mut n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;
        if n_byte_tokens > 256 {
            n_byte_tokens = 256;
        }
"""))
same("r ob huff counts", (Y, """        let mut counts = (0..=255).map(|i| (i, 1)).collect::<Vec<(u8, u64)>>();
        for (token, count) in token_stats.token_set.tokens.iter().zip(token_stats.token_counts.iter()) {
            if let Token::Str(s) = token {
                if s.len() == 1 {
                    counts[s[0] as usize] = (s[0], count + 1);
                }
            }
        }

        for (seq, count) in token_stats.token_set.sequences.iter().zip(token_stats.seq_counts.iter()) {
            assert_eq!(seq.string.len(), 1);
            counts[seq.string[0] as usize] = (seq.string[0], count + 1);
        }
""", """        let counts = byte_counts(token_stats);
"""), (Y, "pub struct HuffOptimizer {}", """/// The number of occurrences of every byte, plus one.
fn byte_counts(stats: &TokenStats) -> Vec<(u8, u64)> {
    let mut counts: Vec<(u8, u64)> = Vec::with_capacity(256);
    for byte in 0..=255u8 {
        counts.push((byte, 1));
    }
    for (i, token) in stats.token_set.tokens.iter().enumerate() {
        if let Token::Str(s) = token {
            if s.len() == 1 {
                counts[s[0] as usize].1 = stats.token_counts[i] + 1;
            }
        }
    }
    for (i, seq) in stats.token_set.sequences.iter().enumerate() {
        assert_eq!(seq.string.len(), 1);
        counts[seq.string[0] as usize].1 = stats.seq_counts[i] + 1;
    }
    counts
}

pub struct HuffOptimizer {}"""))
same("r ob huff total helper", (Y, """            let mut total = 0;

            for token in token_set.tokens.iter() {
                if let Token::Str(s) = token {
                    assert_eq!(s.len(), 1);
                    total += counts[s[0] as usize].1
                }
            }

            for seq in token_set.sequences.iter() {
                assert_eq!(seq.string.len(), 1);
                total += counts[seq.string[0] as usize].1 * seq.tokens.len() as u64;
            }
    
            if best_total_tokens.is_none() || total < best_total_tokens.unwrap() {
                best_token_set = Some(token_set);
                best_total_tokens = Some(total);
            }
        }
""", """            let total = total_tokens(&token_set, &counts);

            match best_total_tokens {
                Some(best) if best <= total => {}
                _ => {
                    best_total_tokens = Some(total);
                    best_token_set = Some(token_set);
                }
            }
        }
"""), (Y, "pub struct HuffOptimizer {}", """fn total_tokens(token_set: &TokenSet, counts: &[(u8, u64)]) -> u64 {
    let mut total = 0;
    for token in token_set.tokens.iter() {
        if let Token::Str(s) = token {
            assert_eq!(s.len(), 1);
            total += counts[s[0] as usize].1;
        }
    }
    for seq in token_set.sequences.iter() {
        assert_eq!(seq.string.len(), 1);
        total += counts[seq.string[0] as usize].1 * seq.tokens.len() as u64;
    }
    total
}

pub struct HuffOptimizer {}"""))
same("r ob huff min_by_key", (Y, """        let mut best_token_set = None;
        let mut best_total_tokens = None;
    
        let max_ext""", """        let mut best: Option<(u64, TokenSet)> = None;

        let max_ext"""), (Y, """            if best_total_tokens.is_none() || total < best_total_tokens.unwrap() {
                best_token_set = Some(token_set);
                best_total_tokens = Some(total);
            }
        }
    
        let mut best_token_set = best_token_set.unwrap();
""", """            if best.as_ref().map_or(true, |(best_total, _)| total < *best_total) {
                best = Some((total, token_set));
            }
        }

        let (_, mut best_token_set) = best.unwrap();
"""))
same("r ob node_to_split", (Y, """            let (top, top_count) = if first_split.top_count > second_split.top_count {
                (first_split.top, first_split.top_count)
            } else {
                (second_split.top, second_split.top_count)
            };

            CharsSplit {
                lo: min(first_split.lo, second_split.lo),
                top,
                top_count,
            }""", """            let lo = min(first_split.lo, second_split.lo);
            let winner = if first_split.top_count > second_split.top_count {
                first_split
            } else {
                second_split
            };

            CharsSplit {
                lo,
                top: winner.top,
                top_count: winner.top_count,
            }"""))
same("r ob best pair fn", (Y, """        let mut min_pair_count = None;
        let mut best_idx = None;
        for i in 0..(nodes.len() - 1) {
            let pair_count = nodes[i].count + nodes[i + 1].count;
            if min_pair_count.is_none() || pair_count < min_pair_count.unwrap() {
                min_pair_count = Some(pair_count);
                best_idx = Some(i);
            }
        }
        let best_idx = best_idx.unwrap();
        let second""", """        let best_idx = lightest_pair(&nodes);
        let second"""), (Y, """/// Finds an optimal split of""", """/// Finds the adjacent pair of nodes with the smallest total count.
fn lightest_pair(nodes: &[HuffmanNode]) -> usize {
    let mut best: Option<(usize, u64)> = None;
    for (i, pair) in nodes.windows(2).enumerate() {
        let count = pair[0].count + pair[1].count;
        match best {
            Some((_, best_count)) if best_count <= count => {}
            _ => best = Some((i, count)),
        }
    }
    best.unwrap().0
}

/// Finds an optimal split of"""))
same("r ob merge remove twice", (Y, """        let second = nodes.remove(best_idx + 1);
        let dummy = HuffmanNode {
            count: 0,
            content: HuffmanNodeContent::Leaf(0),
        };
        let first = mem::replace(&mut nodes[best_idx], dummy);
        let new_node = HuffmanNode {
            count: first.count + second.count,
            content: HuffmanNodeContent::Internal(Box::new(first), Box::new(second)),
        };
        nodes[best_idx] = new_node;""", """        let first = nodes.remove(best_idx);
        let second = nodes.remove(best_idx);
        nodes.insert(best_idx, merge_nodes(first, second));"""), (Y, "use std::mem;\n", ""),
     (Y, """/// Finds an optimal split of""", """fn merge_nodes(first: HuffmanNode, second: HuffmanNode) -> HuffmanNode {
    HuffmanNode {
        count: first.count + second.count,
        content: HuffmanNodeContent::Internal(Box::new(first), Box::new(second)),
    }
}

/// Finds an optimal split of"""))
same("r ob splits map", (Y, """    let mut splits = Vec::new();
    for node in nodes.iter() {
        splits.push(node_to_split(node));
    }

    splits""", """    nodes.iter().map(node_to_split).collect()"""))
same("r ob leaves map", (Y, """    let mut nodes = Vec::new();
    for (ch, count) in counts {
        nodes.push(HuffmanNode {
            count: *count,
            content: HuffmanNodeContent::Leaf(*ch),
        });
    }
""", """    let mut nodes: Vec<HuffmanNode> = counts
        .iter()
        .map(|&(ch, count)| HuffmanNode {
            count,
            content: HuffmanNodeContent::Leaf(ch),
        })
        .collect();
"""))
same("r ob sub counts helper", (Y, """        let counts_lo = counts.binary_search(&(split.lo, 0)).unwrap_err();
        let counts_hi = if i == splits.len() - 1 {
            counts.len()
        } else {
            counts.binary_search(&(splits[i + 1].lo, 0)).unwrap_err()
        };

        if counts_hi == counts_lo + 1 {
            continue;
        }

        let mut sub_counts = counts[counts_lo..counts_hi].to_vec();

        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();
        sub_counts.remove(top_idx);

        let sub_encs""", """        let sub_counts = counts_without_top(counts, &splits, i);
        if sub_counts.is_empty() {
            continue;
        }

        let sub_encs"""), (Y, """        let counts_lo = counts.binary_search(&(split.lo, 0)).unwrap_err();
        let counts_hi = if i == top_splits.len() - 1 {
            counts.len()
        } else {
            counts
                .binary_search(&(top_splits[i + 1].lo, 0))
                .unwrap_err()
        };

        if counts_hi == counts_lo + 1 {
            continue;
        }

        let mut sub_counts = counts[counts_lo..counts_hi].to_vec();

        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();
        sub_counts.remove(top_idx);

        let encs""", """        let sub_counts = counts_without_top(counts, &top_splits, i);
        if sub_counts.is_empty() {
            continue;
        }

        let encs"""), (Y, "/// Optimizes the sequence suffixes", """/// The counts of the bytes of the i-th split, except its most frequent byte.
fn counts_without_top(counts: &[(u8, u64)], splits: &[CharsSplit], i: usize) -> Vec<(u8, u64)> {
    let split = &splits[i];
    let counts_lo = counts.binary_search(&(split.lo, 0)).unwrap_err();
    let counts_hi = match splits.get(i + 1) {
        Some(next) => counts.binary_search(&(next.lo, 0)).unwrap_err(),
        None => counts.len(),
    };

    let mut sub_counts = counts[counts_lo..counts_hi].to_vec();
    let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();
    sub_counts.remove(top_idx);
    sub_counts
}

/// Optimizes the sequence suffixes"""))
same("r ob enc prefix fn", (Y, """        for (ch, mut enc) in sub_encs {
            enc.insert(0, i);
            encodings.push((ch, enc));
        }""", """        for (ch, sub_enc) in sub_encs {
            let mut enc = vec![i];
            enc.extend(sub_enc);
            encodings.push((ch, enc));
        }"""))
same("r ob ext index loop", (Y, """    for (i, split) in splits.iter().enumerate() {
        encodings.push((split.top, vec![i]));
""", """    for i in 0..splits.len() {
        let split = &splits[i];
        encodings.push((split.top, vec![i]));
"""))

# ---- processing.rs
same("r pr add_word fn", (P, """    if first.is_uppercase() {
        let lower_first = first.to_lowercase().to_string();
        let lower_word = word.to_lowercase();
        // Some letters (like 'İ' or 'ẞ') aren't restored by upper-casing.
        if rest.chars().all(|ch| ch.is_lowercase()) && lower_first.to_uppercase() == first.to_string() {
            out.push('\\x14');
            out.push_str(&lower_first);
            out.push_str(rest);
        } else if rest.chars().all(|ch| ch.is_uppercase()) && lower_word.to_uppercase() == word {
            out.push('\\x15');
            out.push_str(&lower_word);
        } else {
            out.push_str(word);
        }
    } else {
        out.push_str(word);
    }

    out.push('\\x16');
}
""", """    if let Some(lower_first) = capitalized(first, rest) {
        out.push('\\x14');
        out.push_str(&lower_first);
        out.push_str(rest);
    } else if let Some(lower_word) = all_caps(first, rest, word) {
        out.push('\\x15');
        out.push_str(&lower_word);
    } else {
        out.push_str(word);
    }

    out.push('\\x16');
}

fn capitalized(first: char, rest: &str) -> Option<String> {
    if !first.is_uppercase() || !rest.chars().all(|ch| ch.is_lowercase()) {
        return None;
    }
    let lower = first.to_lowercase().to_string();
    if lower.to_uppercase() == first.to_string() {
        Some(lower)
    } else {
        None
    }
}

fn all_caps(first: char, rest: &str, word: &str) -> Option<String> {
    if !first.is_uppercase() || !rest.chars().all(|ch| ch.is_uppercase()) {
        return None;
    }
    let lower = word.to_lowercase();
    if lower.to_uppercase() == word {
        Some(lower)
    } else {
        None
    }
}
"""))
same("r pr add_word return", (P, """    if first.is_uppercase() {
        let lower_first""", """    if !first.is_uppercase() {
        out.push_str(word);
    } else {
        let lower_first"""), (P, """        } else {
            out.push_str(word);
        }
    } else {
        out.push_str(word);
    }
""", """        } else {
            out.push_str(word);
        }
    }
"""))
same("r pr add_word any", (P, "rest.chars().all(|ch| ch.is_lowercase())", "!rest.chars().any(|ch| !ch.is_lowercase())"),
     (P, "rest.chars().all(|ch| ch.is_uppercase())", "rest.chars().all(char::is_uppercase)"))
same("r pr chartype match", (P, """    if ch.is_alphabetic() {
        CharType::Letter
    } else if ch == ' ' {
        CharType::Space
    } else {
        CharType::NonLetter
    }""", """    match ch {
        ' ' => CharType::Space,
        _ if ch.is_alphabetic() => CharType::Letter,
        _ => CharType::NonLetter,
    }"""))
same("r pr process nested", (P, """        state = match (state, get_char_type(ch)) {
            (State::NonWord, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
            (State::NonWord, CharType::Space | CharType::NonLetter) => {
                out.push(ch);
                State::NonWord
            }
            (State::Word, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
            (State::Word, CharType::Space) => {
                add_word(&mut out, &word);
                word.clear();
                State::SpaceAfterWord
            }
            (State::Word, CharType::NonLetter) => {
                add_word(&mut out, &word);
                word.clear();
                out.push(ch);
                State::NonWord
            }
            (State::SpaceAfterWord, CharType::Letter) => {
                // Skipping the space character, since there was only one space between the words.
                word.push(ch);
                State::Word
            }
            (State::SpaceAfterWord, CharType::Space | CharType::NonLetter) => {
                out.push(' ');
                out.push(ch);
                State::NonWord
            }
        };""", """        let char_type = get_char_type(ch);
        if let CharType::Letter = char_type {
            // If the previous character was a single space after a word, it is skipped.
            word.push(ch);
            state = State::Word;
            continue;
        }

        state = match state {
            State::NonWord => {
                out.push(ch);
                State::NonWord
            }
            State::Word => {
                add_word(&mut out, &word);
                word.clear();
                match char_type {
                    CharType::Space => State::SpaceAfterWord,
                    _ => {
                        out.push(ch);
                        State::NonWord
                    }
                }
            }
            State::SpaceAfterWord => {
                out.push(' ');
                out.push(ch);
                State::NonWord
            }
        };"""))
same("r pr process flush_word", (P, """            (State::Word, CharType::Space) => {
                add_word(&mut out, &word);
                word.clear();
                State::SpaceAfterWord
            }
            (State::Word, CharType::NonLetter) => {
                add_word(&mut out, &word);
                word.clear();
                out.push(ch);""", """            (State::Word, CharType::Space) => {
                flush_word(&mut out, &mut word);
                State::SpaceAfterWord
            }
            (State::Word, CharType::NonLetter) => {
                flush_word(&mut out, &mut word);
                out.push(ch);"""), (P, "enum State {", """fn flush_word(out: &mut String, word: &mut String) {
    add_word(out, word);
    word.clear();
}

enum State {"""))
same("r pr process merge arms", (P, """            (State::NonWord, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
            (State::NonWord, CharType::Space | CharType::NonLetter) => {
                out.push(ch);
                State::NonWord
            }
            (State::Word, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
""", """            (State::NonWord | State::Word, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
            (State::NonWord, _) => {
                out.push(ch);
                State::NonWord
            }
"""))
same("r pr process take", (P, """                add_word(&mut out, &word);
                word.clear();
                State::SpaceAfterWord""", """                add_word(&mut out, &std::mem::take(&mut word));
                State::SpaceAfterWord"""))
same("r pr file match", (P, """    while reader.read_line(&mut line)? > 0 {
        let processed = process(&line);
        writer.write_all(processed.as_bytes())?;
        line.clear();
    }

    writer.flush()""", """    loop {
        line.clear();
        let n = reader.read_line(&mut line)?;
        if n == 0 {
            break;
        }
        writer.write_all(process(&line).as_bytes())?;
    }

    writer.flush()?;
    Ok(())"""))
same("r pr file fn", (P, """    while reader.read_line(&mut line)? > 0 {
        let processed = process(&line);
        writer.write_all(processed.as_bytes())?;
        line.clear();
    }
""", """    while reader.read_line(&mut line)? > 0 {
        process_line(&line, &mut writer)?;
        line.clear();
    }
"""), (P, "pub fn process_file<", """fn process_line<W: Write>(line: &str, writer: &mut W) -> io::Result<()> {
    let processed = process(line);
    writer.write_all(processed.as_bytes())
}

pub fn process_file<"""))

# ---- main.rs
same("r mn maybe nested", (M, """    match (filename_processed, processing) {
        (_, Processing::Raw) => (filename_raw.to_string(), None),
        (Some(f), Processing::CapsWords) => (f.to_string(), None),
        (None, Processing::CapsWords) => {
            println!("Pre-processing the data file... ");
            let mut temp_processed = NamedTempFile::new().unwrap();
            let mut input = File::open(filename_raw).unwrap();
            process_file(&mut input, &mut temp_processed).unwrap();
            println!("done");
            let filename = temp_processed.path().to_str().unwrap().to_string();
            (filename, Some(temp_processed))
        }
    }
}
""", """    match processing {
        Processing::Raw => (filename_raw.to_string(), None),
        Processing::CapsWords => {
            if let Some(filename) = filename_processed {
                return (filename.to_string(), None);
            }
            let temp_processed = process_to_temp_file(filename_raw);
            let filename = temp_processed.path().to_str().unwrap().to_string();
            (filename, Some(temp_processed))
        }
    }
}

fn process_to_temp_file(filename_raw: &str) -> NamedTempFile {
    println!("Pre-processing the data file... ");
    let mut input = File::open(filename_raw).unwrap();
    let mut temp_processed = NamedTempFile::new().unwrap();
    process_file(&mut input, &mut temp_processed).unwrap();
    println!("done");
    temp_processed
}
"""))
same("r mn process expect", (M, """    let mut input = File::open(filename).unwrap();
    let mut output = File::create(output).unwrap();

    process_file(&mut input, &mut output).unwrap();""", """    let mut input_file = File::open(filename).expect("can't open the data file");
    let mut output_file = File::create(output).expect("can't create the output file");

    if let Err(e) = process_file(&mut input_file, &mut output_file) {
        panic!("can't process the data: {}", e);
    }"""))
same("r mn count whilelet", (M, """    loop {
        line.clear();
        match reader.read_line(&mut line) {
            Ok(0) => break,
            Ok(_) => {}
            Err(e) => panic!("{}", e),
        }
        let chars_in_line = line.chars().count();
        let next_total = total + chars_in_line;
        if total / 1000000000 != next_total / 1000000000 {
            println!("{}", next_total);
        }
        total = next_total;

        for c in line.chars() {
            let c = c as u32;
            if c < 256 {
                counts_low[c as usize] += 1;
            } else {
                *counts.entry(c).or_insert(0) += 1;
            }
        }
    }
""", """    while reader.read_line(&mut line).unwrap() > 0 {
        let previous_total = total;
        for c in line.chars() {
            total += 1;
            match counts_low.get_mut(c as usize) {
                Some(count) => *count += 1,
                None => *counts.entry(c as u32).or_insert(0) += 1,
            }
        }
        if previous_total / 1000000000 != total / 1000000000 {
            println!("{}", total);
        }
        line.clear();
    }
"""))
same("r mn count fn", (M, """        for c in line.chars() {
            let c = c as u32;
            if c < 256 {
                counts_low[c as usize] += 1;
            } else {
                *counts.entry(c).or_insert(0) += 1;
            }
        }
""", """        for c in line.chars() {
            count_char(c as u32, &mut counts_low, &mut counts);
        }
"""), (M, "fn count_chars(", """fn count_char(c: u32, counts_low: &mut [usize; 256], counts: &mut HashMap<u32, usize>) {
    if c > 255 {
        *counts.entry(c).or_insert(0) += 1;
        return;
    }
    counts_low[c as usize] += 1;
}

fn count_chars("""))
same("r mn count max iter", (M, """    let mut max_c = counts_low.iter().rposition(|&n| n > 0).unwrap_or(0) as u32;
    for c in counts.keys() {
        if *c > max_c {
            max_c = *c;
        }
    }
""", """    let max_low = counts_low.iter().rposition(|&n| n > 0).unwrap_or(0) as u32;
    let max_c = counts.keys().copied().fold(max_low, std::cmp::max);
"""))
same("r mn count max chain", (M, """    let mut max_c = counts_low.iter().rposition(|&n| n > 0).unwrap_or(0) as u32;
    for c in counts.keys() {
        if *c > max_c {
            max_c = *c;
        }
    }
""", """    let max_c = match counts.keys().max() {
        Some(&c) => c,
        None => counts_low.iter().rposition(|&n| n > 0).unwrap_or(0) as u32,
    };
"""))
same("r mn count btree", (M, "    let mut counts = HashMap::new();\n", "    let mut counts = std::collections::BTreeMap::new();\n"),
     (M, "use std::collections::HashMap;\n", ""), (M, """    let mut max_c = counts_low.iter().rposition(|&n| n > 0).unwrap_or(0) as u32;
    for c in counts.keys() {
        if *c > max_c {
            max_c = *c;
        }
    }
""", """    let max_c = match counts.last_key_value() {
        Some((&c, _)) => c,
        None => counts_low.iter().rposition(|&n| n > 0).unwrap_or(0) as u32,
    };
"""))
same("r mn count print range", (M, """    for (c, count) in counts_low.iter().enumerate() {
        if *count > 0 {
            println!("{:?} {}", std::char::from_u32(c as u32).unwrap(), count);
        }
    }
""", """    for c in 0..=255u8 {
        let count = counts_low[usize::from(c)];
        if count != 0 {
            println!("{:?} {}", char::from(c), count);
        }
    }
"""))
same("r mn read tokens", (M, """    let path = Path::new(filename);
    let input_tokens_file = File::open(path).expect("Input tokens file not found");
    let reader = BufReader::new(input_tokens_file);

    // Deserialize the JSON data into a serde_json::Value
    let tokenset_json: Value = serde_json::from_reader(reader).unwrap();
    TokenSet::from_json(tokenset_json)""", """    let contents = std::fs::read_to_string(filename).expect("Input tokens file not found");
    let tokenset_json: Value = serde_json::from_str(&contents).unwrap();
    TokenSet::from_json(tokenset_json)"""))
same("r mn convert uses save", (M, """    let output_path = tokens_dir_path.join(format!("{}.json", token_set.name()));
    println!("Writing the token set to {}.", output_path.display());
    let serialized = serde_json::to_string(&stats.to_json()).unwrap();
    std::fs::write(&output_path, serialized).unwrap();
}

fn save_tokens(""", """    save_tokens(&stats, tokens_dir_path);
}

fn save_tokens("""))
same("r mn convert order", (M, """    let tokens_dir_path = Path::new(tokens_dir);
    let token_set = read_token_set(input_tokens_path);

    let (filename, _temp) =
        maybe_process_file(filename_raw, filename_processed, token_set.processing);
    let initial_size = std::fs::metadata(filename_raw).unwrap().len();
""", """    let initial_size = file_size(filename_raw);
    let token_set = read_token_set(input_tokens_path);
    let tokens_dir_path = Path::new(tokens_dir);

    let (filename, _temp) =
        maybe_process_file(filename_raw, filename_processed, token_set.processing);
"""), (M, "fn load_save_tokens(", """fn file_size(filename: &str) -> u64 {
    std::fs::metadata(filename).unwrap().len()
}

fn load_save_tokens("""))
same("r mn save one helper", (M, """fn save_tokens(stats: &TokenStats, tokens_dir: &Path) {
    let output_path = tokens_dir.join(format!("{}.json", stats.token_set.name()));
    println!("Writing the token set to {}.", output_path.display());
    let serialized = serde_json::to_string(&stats.to_json()).unwrap();
    std::fs::write(&output_path, serialized).unwrap();
}""", """fn save_tokens(stats: &TokenStats, tokens_dir: &Path) {
    write_json(&stats.token_set, stats.to_json(), tokens_dir);
}

fn write_json(token_set: &TokenSet, value: Value, tokens_dir: &Path) {
    let output_path = tokens_dir.join(token_set.name() + ".json");
    println!("Writing the token set to {}.", output_path.display());
    let serialized = serde_json::to_vec(&value).unwrap();
    std::fs::write(output_path, serialized).unwrap();
}"""))
same("r mn increasing loop", (M, """    while size < full_size {
        let sampler""", """    loop {
        if size >= full_size {
            break;
        }
        let sampler"""), (M, """        size = std::cmp::max(1, size * 2);
    }

    optimizer""", """        size = (size + size).max(1);
    }

    optimizer"""))
same("r mn increasing report", (M, """        if let Some(tokenset) = tokenset.as_ref() {
            let stats = optimizer.get_stats(&sampler, tokenset);
            println!("bytes / token (bigger data): {}", stats.bytes_per_token());
        }
""", """        match &tokenset {
            Some(tokenset) => print_bytes_per_token(
                "bigger data",
                &optimizer.get_stats(&sampler, tokenset),
            ),
            None => {}
        }
"""), (M, """        println!("bytes / token (optimized): {}", stats.bytes_per_token());
""", """        print_bytes_per_token("optimized", &stats);
"""), (M, """        println!(
            "bytes / token (full data): {}",
            new_full_stats.bytes_per_token()
        );
""", """        print_bytes_per_token("full data", &new_full_stats);
"""), (M, "fn optimize_with_increasing_data(", """fn print_bytes_per_token(what: &str, stats: &TokenStats) {
    println!("bytes / token ({}): {}", what, stats.bytes_per_token());
}

fn optimize_with_increasing_data("""))
same("r mn increasing converge", (M, """        if size > 1 << 24
            && (stats.bytes_per_token() - new_full_stats.bytes_per_token()).abs()
                / new_full_stats.bytes_per_token()
                < 0.005
        {""", """        let sample_ratio = stats.bytes_per_token();
        let full_ratio = new_full_stats.bytes_per_token();
        let difference = (sample_ratio - full_ratio).abs() / full_ratio;
        if size > 1 << 24 && difference < 0.005 {"""))
same("r mn optimize map", (M, """    let input_token_set = if let Some(filename) = input_tokens {
        println!("Reading the input token set from {}.", filename);
        let token_set = read_token_set(filename);
        assert_eq!(
            token_set.processing, processing,
            "The input token set was made for differently processed data."
        );
        Some(token_set)
    } else {
        None
    };
""", """    let input_token_set = input_tokens.map(|filename| {
        println!("Reading the input token set from {}.", filename);
        let token_set = read_token_set(filename);
        if token_set.processing != processing {
            panic!("The input token set was made for differently processed data.");
        }
        token_set
    });
"""))
same("r mn optimize early", (M, """    let stats = if let Some(min_data_size) = min_data_size {
        optimize_with_increasing_data(&optimizer, &filename, min_data_size, input_token_set)
    } else if initial_size < 1 << 34 {
        optimizer.optimize(
            &MemorySampler::from_file(&filename, 1 << 20),
            input_token_set,
        )
    } else {
        optimizer.optimize(&FileSampler::new(&filename, 1 << 24, None), input_token_set)
    };
""", """    let stats = match min_data_size {
        Some(min_data_size) => {
            optimize_with_increasing_data(&optimizer, &filename, min_data_size, input_token_set)
        }
        None => optimize_with_all_data(&optimizer, &filename, initial_size, input_token_set),
    };
"""), (M, "fn optimize(\n", """fn optimize_with_all_data(
    optimizer: &optimize::Optimizer,
    filename: &str,
    initial_size: u64,
    input_token_set: Option<TokenSet>,
) -> TokenStats {
    if initial_size >= 1 << 34 {
        let sampler = FileSampler::new(filename, 1 << 24, None);
        optimizer.optimize(&sampler, input_token_set)
    } else {
        let sampler = MemorySampler::from_file(filename, 1 << 20);
        optimizer.optimize(&sampler, input_token_set)
    }
}

fn optimize(
"""))
same("r mn main by value", (M, """    match &args.command {
        Command::ConvertTokens {
            data,
            processed_data,
            input_tokens,
            tokens_dir,
        } => load_save_tokens(data, processed_data.as_deref(), input_tokens, tokens_dir),
""", """    match args.command {
        Command::ConvertTokens {
            data,
            processed_data,
            input_tokens,
            tokens_dir,
        } => load_save_tokens(
            &data,
            processed_data.as_deref(),
            &input_tokens,
            &tokens_dir,
        ),
"""), (M, """        } => optimize(
            *ntokens,
            data,
            processed_data.as_deref(),
            tokens_dir,
            *processing,
            *token_type,
            input_tokens.as_deref(),
            *min_data_size,
        ),

        Command::Process { data, output } => process(data.as_str(), output.as_str()),

        Command::CountChars { data } => count_chars(data.as_str()),""", """        } => optimize(
            ntokens,
            &data,
            processed_data.as_deref(),
            &tokens_dir,
            processing,
            token_type,
            input_tokens.as_deref(),
            min_data_size,
        ),

        Command::Process { data, output } => process(&data, &output),

        Command::CountChars { data } => count_chars(&data),"""))
same("r mn run fn", (M, """fn main() {
    let args = Args::parse();

    match &args.command {""", """fn main() {
    let Args { command } = Args::parse();
    run(&command);
}

fn run(command: &Command) {
    match command {"""))

# ---- input/
same("r in file iter one ctor", (FS, """        if let Some(chunks_selection) = self.max_samples {
            FileIterator {
                _sampler: self,
                file,
                sample_size: self.sample_size,
                file_size: self.file_size,
                samples_left: Some(chunks_selection),
            }
        } else {
            FileIterator {
                _sampler: self,
                file,
                sample_size: self.sample_size,
                file_size: self.file_size,
                samples_left: None,
            }
        }""", """        FileIterator {
            _sampler: self,
            file,
            sample_size: self.sample_size,
            file_size: self.file_size,
            samples_left: self.max_samples,
        }"""))
same("r in file next methods", (FS, """        let mut buffer = Vec::new();
        buffer.resize(self.sample_size, 0);

        if let Some(samples_left) = self.samples_left {
            if samples_left == 0 {
                None
            } else {
                self.samples_left = Some(samples_left - 1);

                let mut rng = rand::thread_rng();
                let max_seek = self.file_size - self.sample_size as u64;
                let start = rng.gen_range(0..max_seek);

                self.file.seek(SeekFrom::Start(start)).unwrap();
                let read_bytes = self.file.read(&mut buffer).unwrap();

                buffer.truncate(read_bytes);
                let paragraph_end = find_paragraph_end(&buffer, buffer.len());
                buffer.truncate(paragraph_end);
                Some(Sample::from_vec(buffer))
            }
        } else {
            let read_bytes = self.file.read(&mut buffer).unwrap();

            if read_bytes == 0 {
                None
            } else if read_bytes < self.sample_size {
                buffer.truncate(read_bytes);
                Some(Sample::from_vec(buffer))
            } else {
                let end = find_paragraph_end(&buffer, read_bytes);
                if end < read_bytes {
                    buffer.truncate(end);
                    self.file
                        .seek(SeekFrom::Current(end as i64 - read_bytes as i64))
                        .unwrap();
                }
                Some(Sample::from_vec(buffer))
            }
        }
    }
}
""", """        match self.samples_left {
            None => self.next_consecutive(),
            Some(0) => None,
            Some(n) => {
                self.samples_left = Some(n - 1);
                Some(self.random_sample())
            }
        }
    }
}

impl<'a> FileIterator<'a> {
    fn random_sample(&mut self) -> Sample<'a> {
        let mut buffer = vec![0; self.sample_size];
        let mut rng = rand::thread_rng();
        let max_seek = self.file_size - self.sample_size as u64;
        let start = rng.gen_range(0..max_seek);

        self.file.seek(SeekFrom::Start(start)).unwrap();
        let read_bytes = self.file.read(&mut buffer).unwrap();

        buffer.truncate(read_bytes);
        let paragraph_end = find_paragraph_end(&buffer, buffer.len());
        buffer.truncate(paragraph_end);
        Sample::from_vec(buffer)
    }

    fn next_consecutive(&mut self) -> Option<Sample<'a>> {
        let mut buffer = vec![0; self.sample_size];
        let read_bytes = self.file.read(&mut buffer).unwrap();

        if read_bytes == 0 {
            return None;
        }

        if read_bytes < self.sample_size {
            buffer.truncate(read_bytes);
        } else {
            let end = find_paragraph_end(&buffer, read_bytes);
            if end < read_bytes {
                let extra = read_bytes - end;
                self.file.seek(SeekFrom::Current(-(extra as i64))).unwrap();
                buffer.truncate(end);
            }
        }
        Some(Sample::from_vec(buffer))
    }
}
"""))
same("r in file early none", (FS, """            if read_bytes == 0 {
                None
            } else if read_bytes < self.sample_size {
                buffer.truncate(read_bytes);
                Some(Sample::from_vec(buffer))
            } else {
                let end = find_paragraph_end(&buffer, read_bytes);
                if end < read_bytes {
                    buffer.truncate(end);
                    self.file
                        .seek(SeekFrom::Current(end as i64 - read_bytes as i64))
                        .unwrap();
                }
                Some(Sample::from_vec(buffer))
            }""", """            match read_bytes {
                0 => None,
                n if n < self.sample_size => {
                    buffer.truncate(n);
                    Some(Sample::from_vec(buffer))
                }
                n => {
                    let end = find_paragraph_end(&buffer, n);
                    let offset = end as i64 - n as i64;
                    if offset != 0 {
                        self.file.seek(SeekFrom::Current(offset)).unwrap();
                        buffer.truncate(end);
                    }
                    Some(Sample::from_vec(buffer))
                }
            }"""))
same("r in mem early", (MS, """        if self.position < self.sampler.data.len() {
            let start = self.position;
            self.position =
                std::cmp::min(start + self.sampler.chunk_size, self.sampler.data.len());
            let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
            if self.position < self.sampler.data.len() && paragraph_end > start {
                self.position = paragraph_end;
            }
            Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
        } else {
            None
        }""", """        let data = self.sampler.data.as_slice();
        let start = self.position;
        if start >= data.len() {
            return None;
        }

        let mut end = (start + self.sampler.chunk_size).min(data.len());
        if end < data.len() {
            let paragraph_end = find_paragraph_end(data, end);
            if paragraph_end > start {
                end = paragraph_end;
            }
        }
        self.position = end;
        Some(Sample::from_bytes(&data[start..end]))"""))
same("r in mem chunk_end fn", (MS, """            let start = self.position;
            self.position =
                std::cmp::min(start + self.sampler.chunk_size, self.sampler.data.len());
            let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
            if self.position < self.sampler.data.len() && paragraph_end > start {
                self.position = paragraph_end;
            }
            Some(""", """            let start = self.position;
            self.position = self.sampler.chunk_end(start);
            Some("""), (MS, "    pub fn from_str(", """    /// The end of the chunk starting at `start`.
    fn chunk_end(&self, start: usize) -> usize {
        let len = self.data.len();
        let limit = std::cmp::min(start + self.chunk_size, len);
        if limit == len {
            return len;
        }
        match find_paragraph_end(&self.data, limit) {
            end if end > start => end,
            _ => limit,
        }
    }

    pub fn from_str("""))
same("r in paragraph windows", (U, """    let mut pos = end;
    while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {
        pos -= 1;
    }

    if pos < 2 { end } else { pos }""", """    let mut pos = end;
    while pos >= 2 {
        if data[pos - 2] == b'\\n' && data[pos - 1] == b'\\n' {
            return pos;
        }
        pos -= 1;
    }

    end"""))
same("r in paragraph rev", (U, """    let mut pos = end;
    while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {
        pos -= 1;
    }

    if pos < 2 { end } else { pos }""", """    for pos in (2..=end).rev() {
        if data[pos - 1] == 10 && data[pos - 2] == 10 {
            return pos;
        }
    }

    end"""))
same("r in sample_from closure", (MS, """                if data.len() as f64 / (read_bytes as f64) < target_share {
                    data.extend_from_slice(&paragraph);
                }

                read_bytes += paragraph.len();
                paragraph.clear();""", """                let share = data.len() as f64 / read_bytes as f64;
                if share < target_share {
                    data.extend(&paragraph);
                }

                read_bytes += paragraph.len();
                paragraph = Vec::new();"""))
same("r in sample as_bytes", ("input/sample.rs", """        match self {
            Sample::Data(data) => data.as_slice(),
            Sample::Ref(data) => data,
        }""", """        match *self {
            Sample::Data(ref data) => &data[..],
            Sample::Ref(data) => data,
        }"""))
same("r in from_file", (MS, """        let data = std::fs::read(filename).unwrap();
        MemorySampler { data, chunk_size }
    }

    /// Create""", """        let mut data = Vec::new();
        let mut file = File::open(filename).unwrap();
        file.read_to_end(&mut data).unwrap();
        MemorySampler { data, chunk_size }
    }

    /// Create"""), (MS, "use std::io::{BufReader, BufRead};", "use std::io::{BufRead, BufReader, Read};"))
