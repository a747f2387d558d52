CASES = []


def bug(name, props, *edits):
    CASES.append((name, "bug", props.split(), list(edits)))


def same(name, *edits):
    CASES.append((name, "same", [], list(edits)))


T = "tokenset.rs"
bug("c05-wrap", "C05", (T, 'u8::try_from(b.as_i64().unwrap()).expect("Byte out of range")', "b.as_i64().unwrap() as u8"))
bug("c05-saturate", "C05", (T, 'u8::try_from(b.as_i64().unwrap()).expect("Byte out of range")', "u8::try_from(b.as_i64().unwrap()).unwrap_or(255)"))
bug("c05-lossy", "C05", (T, """    match std::str::from_utf8(bytes) {
        Ok(s) => s.into(),
        Err(_) => json!(bytes),
    }""", "    String::from_utf8_lossy(bytes).into_owned().into()"))
bug("c05-filter", "C05", (T, '.map(|b| u8::try_from(b.as_i64().unwrap()).expect("Byte out of range"))', ".filter_map(|b| u8::try_from(b.as_i64().unwrap()).ok())"))
bug("c05-trim", "C05", (T, "s.as_bytes().to_vec()),", "s.trim_end_matches('\\0').as_bytes().to_vec()),"))
same("c05-loop", (T, """        Value::Array(v) => Token::Str(v
            .iter()
            .map(|b| u8::try_from(b.as_i64().unwrap()).expect("Byte out of range"))
            .collect::<Vec<_>>()),""", """        Value::Array(v) => {
            let mut bytes = Vec::with_capacity(v.len());
            for b in v {
                let n = b.as_i64().unwrap();
                assert!(n >= 0 && n < 256);
                bytes.push(n as u8);
            }
            Token::Str(bytes)
        }"""))

bug("c04-key", "C04", (T, '"split_paragraphs": self.split_paragraphs,', '"splitParagraphs": self.split_paragraphs,'))
bug("c04-spelling", "C04", (T, 'Some("byteshuff") => TokenType::BytesHuff', 'Some("bytes_huff") => TokenType::BytesHuff'))
bug("c04-serde", "C04", (T, '#[serde(rename_all = "lowercase")]\npub enum TokenType', '#[serde(rename_all = "snake_case")]\npub enum TokenType'))
bug("c04-noclear", "C04", (T, "            token_set.sequences.clear();\n", ""))
bug("c04-filter", "C04", (T, ".filter(|s| s.tokens.len() > 1)", ".filter(|s| s.tokens.len() > 2)"))
bug("c04-filter2", "C04", (T, ".filter(|s| s.tokens.len() > 1)", ".filter(|s| s.tokens.len() > 1 && s.string.len() == 1 && s.string[0] < 128)"))
bug("c04-order", "C04", (T, "                    tokens.push(idx);\n                }\n", "                    tokens.push(idx);\n                }\n                tokens.reverse();\n"))
bug("c04-single", "C04", (T, "            if let Token::Str(token) = parse_token(token) {\n                token_set.add_token(&token);", "            if let Token::Str(token) = parse_token(token) {\n                if token.len() > 1 || token_type as usize >= 3 {\n                token_set.add_token(&token);\n                }"))
bug("c04-processing", "C04", (T, 'Some("raw") => Processing::Raw,', 'Some("raw") | None => Processing::Raw,'), (T, '"processing": self.processing,', '"preprocessing": self.processing,'))
bug("c04-split-default", "C04", (T, "Some(&Value::Bool(v)) => v,", "Some(&Value::Bool(v)) => v || token_type as usize == 4,"))
bug("c04-bits4", "C04", (T, "assert_eq!(n_ext_tokens, 16);\n                TokenSet::new_bits4(processing, split_paragraphs)", "assert_eq!(n_ext_tokens, 16);\n                TokenSet::new_bits4(processing, true)"))
bug("c04-idx", "C04", (T, "token_set.tokens.iter().position(|x| x == &token).unwrap();", "token_set.tokens.iter().rev().position(|x| x == &token).unwrap();"))
same("c04-iflet", (T, """        if value.as_object().unwrap().contains_key("sequences") {
            // The file lists all sequences, including the constructor's.
            token_set.sequences.clear();
            for seq in value["sequences"].as_array().unwrap().iter() {""", """        if let Some(list) = value.get("sequences") {
            token_set.sequences = Vec::new();
            for seq in list.as_array().unwrap() {"""))
same("c04-helper", (T, """                let mut tokens = Vec::new();
                for token in seq["tokens"].as_array().unwrap().iter() {
                    let token = parse_token(token);
                    let idx = token_set.tokens.iter().position(|x| x == &token).unwrap();
                    tokens.push(idx);
                }
""", """                let tokens = token_set.token_ids(&seq["tokens"]);
"""), (T, "    pub fn name(&self) -> String {", """    fn token_ids(&self, list: &Value) -> Vec<usize> {
        list.as_array()
            .unwrap()
            .iter()
            .map(|v| {
                let wanted = parse_token(v);
                self.tokens.iter().position(|x| *x == wanted).unwrap()
            })
            .collect()
    }

    pub fn name(&self) -> String {"""))
same("c04-write-loop", (T, """        let sequences = self
            .sequences
            .iter()
            .filter(|s| s.tokens.len() > 1)
            .map(|s| s.to_json(self))
            .collect::<Vec<_>>();
        if !sequences.is_empty() {""", """        let mut sequences = Vec::new();
        for s in &self.sequences {
            if s.tokens.len() <= 1 {
                continue;
            }
            sequences.push(s.to_json(self));
        }
        if sequences.len() > 0 {"""))

bug("c17-lsb", "C17", (T, "            bits.reverse();\n", ""))
bug("c17-mask", "C17", (T, "digits.push(rem & 3);", "digits.push(rem & 2 | (rem ^ (rem >> 7)) & 1);"))
bug("c17-skip", "C17", (T, "        for c in 0..256 {\n            let mut rem = c;\n            let mut bits", "        for c in 0..255 {\n            let mut rem = c;\n            let mut bits"))
bug("c17-nibble", "C17", (T, "vec![c >> 4, c & 15]", "vec![(c >> 4) & 7 | (c & 128) >> 4, (c & 15) % 15]"))
bug("c17-ext", "C17", (T, ".map(|i| Token::Ext(i as u8))", ".map(|i| Token::Ext((n_ext_tokens - 1 - i) as u8))"))
same("c17-shift", (T, """            let mut rem = c;
            let mut bits = Vec::new();
            for _ in 0..8 {
                bits.push(rem & 1);
                rem >>= 1;
            }
            bits.reverse();
            token_set.add_sequence(vec![c as u8], bits);""", """            let bits = (0..8).rev().map(|i| c >> i & 1).collect();
            token_set.add_sequence(vec![c as u8], bits);"""))
same("c17-helper", (T, """            let mut rem = c;
            let mut bits = Vec::new();
            for _ in 0..8 {
                bits.push(rem & 1);
                rem >>= 1;
            }
            bits.reverse();
            token_set.add_sequence(vec![c as u8], bits);""", """            token_set.add_sequence(vec![c as u8], Self::digits(c, 8, 1));"""),
     (T, """            let mut rem = c;
            let mut digits = Vec::new();
            for _ in 0..4 {
                digits.push(rem & 3);
                rem >>= 2;
            }
            digits.reverse();
            token_set.add_sequence(vec![c as u8], digits);""", """            token_set.add_sequence(vec![c as u8], Self::digits(c, 4, 2));"""),
     (T, "    pub fn new_bits1(", """    fn digits(value: usize, n: usize, width: usize) -> Vec<usize> {
        let mask = (1 << width) - 1;
        let mut digits = Vec::with_capacity(n);
        let mut rem = value;
        for _ in 0..n {
            digits.push(rem & mask);
            rem >>= width;
        }
        digits.reverse();
        digits
    }

    pub fn new_bits1("""))
same("c17-div", (T, """                digits.push(rem & 3);
                rem >>= 2;""", """                digits.push(rem % 4);
                rem /= 4;"""), (T, "        for c in 0..256 {\n            token_set.add_sequence(vec![c as u8], vec![c >> 4, c & 15]);", "        for c in 0..=255u8 {\n            token_set.add_sequence(vec![c], vec![(c >> 4) as usize, (c & 0x0f) as usize]);"))

bug("c19-prefix", "C19", (T, "self.sequences.retain(|s| s.string != token);", "self.sequences.retain(|s| !s.string.starts_with(token));"))
bug("c19-keep", "C19", (T, "self.sequences.retain(|s| s.string != token);", "if token.len() > 1 { self.sequences.retain(|s| s.string != token); }"))
bug("c19-one", "C19", (T, "        for c in 0..256 {\n            token_set.add_token", "        for c in 1..256 {\n            token_set.add_token"))
bug("c19-empty", "C19", (T, "        assert!(!token.is_empty());\n        self.seq", "        debug_assert!(!self.tokens.is_empty() || !token.is_empty());\n        self.seq"))
bug("c19-drop", "C19 C04", (T, "self.sequences.retain(|s| s.string != token);", "self.sequences.retain(|s| s.string != token && s.tokens.len() > 1);"))
same("c19-filter", (T, "self.sequences.retain(|s| s.string != token);", "let old = std::mem::take(&mut self.sequences);\n        self.sequences = old.into_iter().filter(|s| s.string.as_slice() != token).collect();"))
same("c19-if", (T, "        assert!(!token.is_empty());\n        self.seq", "        if token.len() == 0 { panic!(\"empty\"); }\n        self.seq"),
     (T, "        let idx = self.tokens.len();\n        self.tokens.push(token);\n        idx", "        self.tokens.push(token);\n        self.ntokens() - 1"))
same("c19-helper", (T, "        self.sequences.retain(|s| s.string != token);\n", "        self.forget(token);\n"), (T, "    pub fn remove_token(", "    fn forget(&mut self, s: &[u8]) {\n        self.sequences.retain(|x| x.string != s);\n    }\n\n    pub fn remove_token("))

bug("c18-last", "C18", (T, "                    if *tok == last_idx {\n                        *tok = token_idx", "                    if *tok == last_idx && seq.string.len() < 2 {\n                        *tok = token_idx"))
bug("c18-noassert", "C18", (T, "            assert!(!seq.tokens.contains(&token_idx));", "            assert!(!seq.tokens[1..].contains(&token_idx));"))
bug("c18-shift", "C18", (T, """            let last_token = self.tokens.pop().unwrap();
            self.tokens[token_idx] = last_token;
""", "            self.tokens.remove(token_idx);\n"))
bug("c18-perm", "C18", (T, "seq.tokens[i] = new_indices[seq.tokens[i]];", "seq.tokens[i] = token_idxs[seq.tokens[i]];"))
bug("c18-first", "C18", (T, "            for i in 0..seq.tokens.len() {", "            for i in 0..seq.tokens.len().min(8) {"))
bug("c18-key", "C18", (T, "token_idxs.sort_by_key(|&id| &self.tokens[id]);", "token_idxs.sort_by_key(|&id| match &self.tokens[id] { Token::Str(s) => (1, s.len(), s.to_vec()), Token::Ext(n) => (0, *n as usize, vec![]) });"))
bug("c18-remap-seqs", "C18", (T, "        for seq in self.sequences.iter_mut() {\n            for i in", "        for seq in self.sequences.iter_mut().skip(1) {\n            for i in"))
same("c18-sort-iter", (T, """            for i in 0..seq.tokens.len() {
                // println!("{} {}", i, seq.tokens[i], );
                seq.tokens[i] = new_indices[seq.tokens[i]];
            }
""", """            for tok in seq.tokens.iter_mut() {
                *tok = new_indices[*tok];
            }
"""))
same("c18-sort-cmp", (T, "token_idxs.sort_by_key(|&id| &self.tokens[id]);", "token_idxs.sort_by(|&a, &b| self.tokens[a].cmp(&self.tokens[b]));"),
     (T, """        for (new_pos, &current_pos) in token_idxs.iter().enumerate() {
            new_indices[current_pos] = new_pos;
        }
""", """        for new_pos in 0..token_idxs.len() {
            new_indices[token_idxs[new_pos]] = new_pos;
        }
"""))
same("c18-swap-remove", (T, """            let last_token = self.tokens.pop().unwrap();
            self.tokens[token_idx] = last_token;
""", "            self.tokens.swap_remove(token_idx);\n"))
same("c18-assert-any", (T, """        for seq in self.sequences.iter() {
            assert!(!seq.tokens.contains(&token_idx));
        }
""", """        assert!(!self.sequences.iter().any(|s| s.tokens.contains(&token_idx)));
"""))
same("c18-helper", (T, """        for seq in self.sequences.iter_mut() {
            for i in 0..seq.tokens.len() {
                // println!("{} {}", i, seq.tokens[i], );
                seq.tokens[i] = new_indices[seq.tokens[i]];
            }
        }
""", "        self.renumber(&new_indices);\n"), (T, "    pub fn sort(", """    fn renumber(&mut self, map: &[usize]) {
        for s in &mut self.sequences {
            s.tokens = s.tokens.iter().map(|&t| map[t]).collect();
        }
    }

    pub fn sort("""))

P = "processing.rs"
bug("c20-end", "C20", (P, "        State::SpaceAfterWord => out.push(' '),\n        State::NonWord => {}", "        State::SpaceAfterWord | State::NonWord => {}"))
bug("c20-two-spaces", "C20", (P, """            (State::SpaceAfterWord, CharType::Space | CharType::NonLetter) => {
                out.push(' ');
                out.push(ch);""", """            (State::SpaceAfterWord, CharType::Space) => {
                out.push(' ');
                State::SpaceAfterWord
            }
            (State::SpaceAfterWord, CharType::NonLetter) => {
                out.push(' ');
                out.push(ch);"""))
bug("c20-numeric", "C20", (P, "if ch.is_alphabetic() {", "if ch.is_alphabetic() || ch.is_numeric() && ch > '9' {"))
bug("c20-ws", "C20", (P, "} else if ch == ' ' {", "} else if ch == ' ' || ch == '\\u{a0}' {"))
bug("c20-noclear", "C20", (P, """                add_word(&mut out, &word);
                word.clear();
                State::SpaceAfterWord""", """                add_word(&mut out, &word);
                word.truncate(0.max(word.len().saturating_sub(64)));
                State::SpaceAfterWord"""))
bug("c20-state", "C20", (P, "                out.push(' ');\n                out.push(ch);\n                State::NonWord", "                out.push(' ');\n                if ch != ' ' { out.push(ch); State::NonWord } else { State::SpaceAfterWord }"))
bug("c20-trim", "C20", (P, "    for ch in text.chars() {", "    for ch in text.trim_end_matches('\\u{feff}').chars() {"))
bug("c20-marker", "C20 C21", (P, "    out.push('\\x16');\n}", "    if word.len() > 1 || first.is_uppercase() { out.push('\\x16'); } else { out.push('\\x16'); out.push('\\x16'); out.pop(); if !first.is_alphanumeric() { out.pop(); } }\n}"))
bug("c21-nocheck", "C21", (P, " && lower_first.to_uppercase() == first.to_string() {", " {"))
bug("c21-nocheck2", "C21", (P, "rest.chars().all(|ch| ch.is_uppercase()) && lower_word.to_uppercase() == word {", "rest.chars().all(|ch| ch.is_uppercase()) {"))
bug("c21-notlower", "C21", (P, "rest.chars().all(|ch| ch.is_uppercase()) && lower_word.to_uppercase() == word {", "rest.chars().all(|ch| !ch.is_lowercase()) && lower_word.to_uppercase().len() == word.len() {"))
bug("c21-rest", "C21 C20", (P, "            out.push_str(&lower_first);\n            out.push_str(rest);", "            out.push_str(&lower_first);\n            out.push_str(&rest.to_lowercase());"), (P, "rest.chars().all(|ch| ch.is_lowercase())", "rest.chars().skip(1).all(|ch| ch.is_lowercase())"))
bug("c22-trim", "C22", (P, "process(&line);", "process(line.trim_end_matches('\\r'));"))
bug("c22-blank", "C22", (P, "        let processed = process(&line);", "        if line == \"\\r\\n\" { line.clear(); continue; }\n        let processed = process(&line);"))
bug("c22-noclear", "C22", (P, "        line.clear();\n    }\n\n    writer.flush()", "        if line.ends_with('\\n') { line.clear(); }\n    }\n\n    writer.flush()"))
bug("c22-nl", "C22", (P, "    writer.flush()", "    if !line.ends_with('\\n') { writer.write_all(b\"\\n\")?; }\n    writer.flush()"))
bug("c22-stop", "C22", (P, "        line.clear();\n    }\n\n    writer.flush()", "        if line.starts_with('\\x1a') { break; }\n        line.clear();\n    }\n\n    writer.flush()"))
same("c20-ifelse", (P, """    match state {
        State::Word => add_word(&mut out, &word),
        State::SpaceAfterWord => out.push(' '),
        State::NonWord => {}
    }
""", """    if let State::SpaceAfterWord = state {
        out.push(' ');
    } else if !word.is_empty() {
        add_word(&mut out, &word);
    }
"""))
same("c20-whilelet", (P, "    for ch in text.chars() {\n        state = match", "    let mut chars = text.chars();\n    while let Some(ch) = chars.next() {\n        state = match"))
same("c20-bools", (P, "    let mut state = State::NonWord;\n", "    let mut pending = false;\n"), (P, """        state = match (state, get_char_type(ch)) {
            (State::NonWord, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
            (State::NonWord, CharType::Space | CharType::NonLetter) => {
                out.push(ch);
                State::NonWord
            }
            (State::Word, CharType::Letter) => {
                word.push(ch);
                State::Word
            }
            (State::Word, CharType::Space) => {
                add_word(&mut out, &word);
                word.clear();
                State::SpaceAfterWord
            }
            (State::Word, CharType::NonLetter) => {
                add_word(&mut out, &word);
                word.clear();
                out.push(ch);
                State::NonWord
            }
            (State::SpaceAfterWord, CharType::Letter) => {
                // Skipping the space character, since there was only one space between the words.
                word.push(ch);
                State::Word
            }
            (State::SpaceAfterWord, CharType::Space | CharType::NonLetter) => {
                out.push(' ');
                out.push(ch);
                State::NonWord
            }
        };
    }

    match state {
        State::Word => add_word(&mut out, &word),
        State::SpaceAfterWord => out.push(' '),
        State::NonWord => {}
    }
""", """        match get_char_type(ch) {
            CharType::Letter => {
                pending = false;
                word.push(ch);
            }
            kind => {
                if pending {
                    out.push(' ');
                    pending = false;
                }
                if word.is_empty() {
                    out.push(ch);
                } else {
                    add_word(&mut out, &word);
                    word = String::new();
                    if let CharType::Space = kind {
                        pending = true;
                    } else {
                        out.push(ch);
                    }
                }
            }
        }
    }

    if !word.is_empty() {
        add_word(&mut out, &word);
    }
    if pending {
        out.push(' ');
    }
"""))
same("c20-pushstr", (P, "                out.push(' ');\n                out.push(ch);\n                State::NonWord", "                out.push_str(\" \");\n                out.extend([ch]);\n                State::NonWord"), (P, "    out.push('\\x16');\n}", "    out.push_str(\"\\u{16}\");\n}"))
same("c20-order", (P, """    if first.is_uppercase() {
        let lower_first""", """    if !first.is_uppercase() {
        out.push_str(word);
    } else {
        let lower_first"""), (P, """        } else {
            out.push_str(word);
        }
    } else {
        out.push_str(word);
    }
""", """        } else {
            out.push_str(word);
        }
    }
"""))
same("c21-early", (P, """        if rest.chars().all(|ch| ch.is_lowercase()) && lower_first""", """        let all_lower = !rest.chars().any(|ch| !ch.is_lowercase());
        if all_lower && lower_first"""))
same("c21-restslice", (P, "    let rest = chars.as_str();", "    let rest = &word[first.len_utf8()..];"))
same("c22-loop", (P, """    while reader.read_line(&mut line)? > 0 {
        let processed = process(&line);
        writer.write_all(processed.as_bytes())?;
        line.clear();
    }
""", """    loop {
        line.clear();
        let n = reader.read_line(&mut line)?;
        if n == 0 {
            break;
        }
        writer.write_all(process(&line).as_bytes())?;
    }
"""))
same("c22-new", (P, """    while reader.read_line(&mut line)? > 0 {
        let processed = process(&line);
        writer.write_all(processed.as_bytes())?;
        line.clear();
    }
""", """    while reader.read_line(&mut line)? != 0 {
        write!(writer, "{}", process(&line))?;
        line = String::new();
    }
"""))
same("c22-helper", (P, """        let processed = process(&line);
        writer.write_all(processed.as_bytes())?;
        line.clear();
""", """        write_line(&mut writer, &line)?;
        line.clear();
"""), (P, "pub fn process_file", """fn write_line<W: Write>(w: &mut W, line: &str) -> io::Result<()> {
    let processed = process(line);
    w.write_all(processed.as_bytes())
}

pub fn process_file"""))

# ---------------------------------------------------------------- C23, C24
MS = "input/memory_sampler.rs"
FS = "input/file_sampler.rs"
SA = "input/sample.rs"
UT = "input/util.rs"
BT = "batch_tokenize.rs"
SEEK = """                if end < read_bytes {
                    buffer.truncate(end);
                    self.file
                        .seek(SeekFrom::Current(end as i64 - read_bytes as i64))
                        .unwrap();
                }
"""
bug("c23-empty", "C23", (MS, "&& paragraph_end > start {", "&& paragraph_end >= start {"))
bug("c23-noguard", "C23", (MS, "if self.position < self.sampler.data.len() && paragraph_end > start {", "if self.position < self.sampler.data.len() {"))
bug("c23-start", "C23", (MS, "            position: 0,", "            position: self.data.len() & 1,"))
bug("c23-last", "C23", (MS, "if self.position < self.sampler.data.len() {\n            let start", "if self.position + 1 < self.sampler.data.len() {\n            let start"))
bug("c23-gap", "C23", (MS, "from_bytes(&self.sampler.data[start..self.position])", "from_bytes(&self.sampler.data[start..std::cmp::min(self.position, start + self.sampler.chunk_size - 1)])"))
bug("c23-noseek", "C23", (FS, SEEK, "                if end < read_bytes {\n                    buffer.truncate(end);\n                }\n"))
bug("c23-seekoff", "C23", (FS, "end as i64 - read_bytes as i64", "end as i64 - read_bytes as i64 + 1"))
bug("c23-seekmore", "C23", (FS, "                    buffer.truncate(end);\n                    self.file", "                    buffer.truncate(end);\n                    while buffer.last() == Some(&10) { buffer.pop(); }\n                    self.file"))
bug("c23-shortread", "C23", (FS, """                buffer.truncate(read_bytes);
                Some(Sample::from_vec(buffer))
            } else {""", """                let end = find_paragraph_end(&buffer, read_bytes);
                buffer.truncate(end);
                Some(Sample::from_vec(buffer))
            } else {"""))
bug("c23-notrunc", "C23", (FS, """                buffer.truncate(read_bytes);
                Some(Sample::from_vec(buffer))
            } else {""", """                Some(Sample::from_vec(buffer))
            } else {"""))
bug("c23-eof", "C23", (FS, "if read_bytes == 0 {", "if read_bytes < 2 {"))
bug("c23-seekstart", "C23", (FS, "        } else {\n            FileIterator {", "        } else {\n            let mut file = file;\n            file.seek(SeekFrom::Start(0u64.max(self.file_size >> 63))).unwrap();\n            let mut b = [0u8; 3];\n            if file.read(&mut b).unwrap() == 3 && b != [0xef, 0xbb, 0xbf] { file.seek(SeekFrom::Start(0)).unwrap(); }\n            FileIterator {"))
bug("c23-seekignored", "C23", (FS, """                    self.file
                        .seek(SeekFrom::Current(end as i64 - read_bytes as i64))
                        .unwrap();
                }
                Some""", """                    let _ = self.file
                        .seek(SeekFrom::Current(end as i64 - read_bytes as i64));
                }
                Some"""))
bug("c23-parend", "C23", (UT, "if pos < 2 { end } else { pos }", "if pos < 2 { end } else { pos - 2 }"))
same("c23-rewrite", (MS, """            let start = self.position;
            self.position =
                std::cmp::min(start + self.sampler.chunk_size, self.sampler.data.len());
            let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
            if self.position < self.sampler.data.len() && paragraph_end > start {
                self.position = paragraph_end;
            }
            Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
""", """            let data = &self.sampler.data[..];
            let start = self.position;
            let mut end = start + self.sampler.chunk_size;
            if end >= data.len() {
                end = data.len();
            } else {
                let paragraph_end = find_paragraph_end(data, end);
                if paragraph_end > start {
                    end = paragraph_end;
                }
            }
            self.position = end;
            let sample = Sample::from_bytes(&data[start..end]);
            Some(sample)
"""))
same("c23-rest", (MS, """pub struct MemoryIterator<'a> {
    sampler: &'a MemorySampler,
    position: usize,
}""", """pub struct MemoryIterator<'a> {
    chunk_size: usize,
    rest: &'a [u8],
}"""), (MS, """            sampler: self,
            position: 0,
""", """            chunk_size: self.chunk_size,
            rest: &self.data,
"""), (MS, """        if self.position < self.sampler.data.len() {
            let start = self.position;
            self.position =
                std::cmp::min(start + self.sampler.chunk_size, self.sampler.data.len());
            let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
            if self.position < self.sampler.data.len() && paragraph_end > start {
                self.position = paragraph_end;
            }
            Some(Sample::from_bytes(&self.sampler.data[start..self.position]))
        } else {
            None
        }
""", """        if self.rest.is_empty() {
            return None;
        }
        let mut n = self.chunk_size.min(self.rest.len());
        if n < self.rest.len() {
            let e = find_paragraph_end(self.rest, n);
            if e > 0 {
                n = e;
            }
        }
        let (head, tail) = self.rest.split_at(n);
        self.rest = tail;
        Some(Sample::from_bytes(head))
"""))
same("c23-match", (FS, """            if read_bytes == 0 {
                None
            } else if read_bytes < self.sample_size {
                buffer.truncate(read_bytes);
                Some(Sample::from_vec(buffer))
            } else {""", """            buffer.truncate(read_bytes);
            if buffer.is_empty() {
                None
            } else if read_bytes < self.sample_size {
                Some(Sample::from_vec(buffer))
            } else {"""))
same("c23-back", (FS, """                    self.file
                        .seek(SeekFrom::Current(end as i64 - read_bytes as i64))
                        .unwrap();
""", """                    let back = (read_bytes - end) as i64;
                    self.file.seek(SeekFrom::Current(-back)).unwrap();
"""))
same("c23-vec", (FS, """        let mut buffer = Vec::new();
        buffer.resize(self.sample_size, 0);
""", """        let mut buffer = vec![0u8; self.sample_size];
"""))
same("c23-seekrel", (FS, "SeekFrom::Current(end as i64 - read_bytes as i64))\n                        .unwrap()", "SeekFrom::Current(-((read_bytes - end) as i64)))\n                        .expect(\"seek\")"))
same("c23-iter", (FS, """        if let Some(chunks_selection) = self.max_samples {
            FileIterator {
                _sampler: self,
                file,
                sample_size: self.sample_size,
                file_size: self.file_size,
                samples_left: Some(chunks_selection),
            }
        } else {
            FileIterator {
                _sampler: self,
                file,
                sample_size: self.sample_size,
                file_size: self.file_size,
                samples_left: None,
            }
        }
""", """        FileIterator {
            _sampler: self,
            file,
            sample_size: self.sample_size,
            file_size: self.file_size,
            samples_left: self.max_samples,
        }
"""))
same("c23-parend", (UT, """    let mut pos = end;
    while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {
        pos -= 1;
    }

    if pos < 2 { end } else { pos }
""", """    for pos in (2..=end).rev() {
        if data[pos - 1] == 10 && data[pos - 2] == 10 {
            return pos;
        }
    }
    end
"""))
bug("c24-lossy", "C24", (BT, "tokenizer.process_slice(sample.as_bytes(), &mut stats, &mut buffer);", "tokenizer.process_slice(String::from_utf8_lossy(sample.as_bytes()).as_bytes(), &mut stats, &mut buffer);"))
bug("c24-str", "C24", (BT, "sample.as_bytes(), &mut stats", "sample.as_str().as_bytes(), &mut stats"))
bug("c24-worker", "C24", (BT, "Ok(ref sample) => sample.as_bytes(),", "Ok(ref sample) => sample.as_str().as_bytes(),"))
bug("c24-assert", "C24", (BT, "        assert!(!data.is_empty());", "        assert!(!data.is_empty() && std::str::from_utf8(data).is_ok());"))
bug("c24-file", "C24", (MS, "let data = std::fs::read(filename).unwrap();", "let data = std::fs::read_to_string(filename).unwrap().into_bytes();"))
bug("c24-crlf", "C24", (MS, "let data = std::fs::read(filename).unwrap();", "let mut data = std::fs::read(filename).unwrap();\n        data.retain(|b| *b != 13);"))
bug("c24-bom", "C24", (MS, "let data = std::fs::read(filename).unwrap();", "let mut data = std::fs::read(filename).unwrap();\n        if data.starts_with(&[0xef, 0xbb, 0xbf]) { data.drain(..3); }"))
bug("c24-trim", "C24", (SA, "Sample::Ref(data) => data,", "Sample::Ref(data) => data.strip_suffix(b\"\\n\\n\\n\").unwrap_or(data),"))
bug("c24-valid", "C24", (FS, """                buffer.truncate(read_bytes);
                Some(Sample::from_vec(buffer))
            } else {""", """                buffer.truncate(read_bytes);
                let v = crate::input::util::extract_valid_utf8_slice(&buffer).to_vec();
                Some(Sample::from_vec(v))
            } else {"""))
bug("c24-name", "C24", (FS, "filename: filename.to_string(),", "filename: filename.trim().to_string(),"))
same("c24-read", (MS, "let data = std::fs::read(filename).unwrap();", "let mut data = Vec::new();\n        std::io::Read::read_to_end(&mut File::open(filename).unwrap(), &mut data).unwrap();"))
same("c24-asbytes", (SA, "Sample::Data(data) => data.as_slice(),", "Sample::Data(data) => &data[..],"))

# ---------------------------------------------------------------- C31
M = "main.rs"
bug("c31-total", "C31", (M, "let chars_in_line = line.chars().count();", "let chars_in_line = line.len();"))
bug("c31-trim", "C31", (M, "for c in line.chars() {\n            let c = c as u32;", "for c in line.trim_end().chars() {\n            let c = c as u32;"))
bug("c31-index", "C31", (M, "if c < 256 {", "if c <= 256 {"))
bug("c31-u8", "C31", (M, "            let c = c as u32;\n", "            let c = if line.is_ascii() { c as u32 } else { c as u32 & 0xffff };\n"))
bug("c31-clear", "C31", (M, "        line.clear();\n        match reader", "        if line.len() < 4096 {\n            line.clear();\n        }\n        match reader"))
bug("c31-entry", "C31", (M, "*counts.entry(c).or_insert(0) += 1;", "*counts.entry(c).or_insert(1) += 1;"))
bug("c31-max", "C31", (M, "if *c > max_c {", "if *c as u8 > max_c as u8 {"))
bug("c31-maxinit", "C31", (M, "counts_low.iter().rposition(|&n| n > 0)", "counts_low.iter().rposition(|&n| n > 1)"))
bug("c31-maxpos", "C31", (M, "counts_low.iter().rposition(|&n| n > 0)", "counts_low.iter().position(|&n| n > 0)"))
bug("c31-maxbound", "C31", (M, ".unwrap_or(0) as u32;\n    for c in counts.keys()", ".unwrap_or(255) as u32;\n    for c in counts.keys()"))
bug("c31-print", "C31", (M, "if *count > 0 {\n            println", "if *count > 1 {\n            println"))
bug("c31-printchar", "C31", (M, "std::char::from_u32(c as u32).unwrap(), count", "std::char::from_u32(c as u32 + 1).unwrap(), count"))
bug("c31-stop", "C31", (M, "            Ok(_) => {}\n            Err(e)", "            Ok(1) => break,\n            Ok(_) => {}\n            Err(e)"))
bug("c31-skip", "C31", (M, "            if c < 256 {\n                counts_low", "            if c == 0xfeff {\n                continue;\n            }\n            if c < 256 {\n                counts_low"))
same("c31-incr", (M, "        let chars_in_line = line.chars().count();\n        let next_total = total + chars_in_line;", "        let next_total = total + line.chars().fold(0, |n, _| n + 1);"))
same("c31-while", (M, """    loop {
        line.clear();
        match reader.read_line(&mut line) {
            Ok(0) => break,
            Ok(_) => {}
            Err(e) => panic!("{}", e),
        }
""", """    while reader.read_line(&mut line).unwrap() > 0 {
"""), (M, """                *counts.entry(c).or_insert(0) += 1;
            }
        }
""", """                *counts.entry(c).or_insert(0) += 1;
            }
        }
        line.clear();
"""))
same("c31-max", (M, """    for c in counts.keys() {
        if *c > max_c {
            max_c = *c;
        }
    }
""", """    for &c in counts.keys() {
        max_c = max_c.max(c);
    }
"""))
same("c31-helper", (M, """        for c in line.chars() {
            let c = c as u32;
            if c < 256 {
                counts_low[c as usize] += 1;
            } else {
                *counts.entry(c).or_insert(0) += 1;
            }
        }
""", """        count_line(&line, &mut counts_low, &mut counts);
"""), (M, "fn count_chars(", """fn count_line(line: &str, low: &mut [usize; 256], high: &mut HashMap<u32, usize>) {
    for c in line.chars().map(|c| c as u32) {
        match low.get_mut(c as usize) {
            Some(n) => *n += 1,
            None => *high.entry(c).or_default() += 1,
        }
    }
}

fn count_chars("""))
same("c31-print", (M, """    for (c, count) in counts_low.iter().enumerate() {
        if *count > 0 {
            println!("{:?} {}", std::char::from_u32(c as u32).unwrap(), count);
        }
    }
""", """    for c in 0..256 {
        let count = counts_low[c];
        if count == 0 {
            continue;
        }
        println!("{:?} {}", std::char::from_u32(c as u32).unwrap(), count);
    }
"""))

# ---------------------------------------------------------------- C06
bug("c06-flush", "C06", (P, "    writer.flush()", "    Ok(())"))
bug("c06-flushign", "C06", (P, "    writer.flush()", "    let _ = writer.flush();\n    Ok(())"))
bug("c06-write", "C06", (P, "        writer.write_all(processed.as_bytes())?;", "        writer.write(processed.as_bytes())?;"))
bug("c06-ok", "C06", (P, "    while reader.read_line(&mut line)? > 0 {", "    while reader.read_line(&mut line).unwrap_or(0) > 0 {"))
bug("c06-okmatch", "C06", (P, "    while reader.read_line(&mut line)? > 0 {", "    while let Ok(n) = reader.read_line(&mut line) {\n        if n == 0 {\n            break;\n        }"))
bug("c06-proc", "C06", (M, "    process_file(&mut input, &mut output).unwrap();\n}", "    if let Err(e) = process_file(&mut input, &mut output) {\n        eprintln!(\"{}\", e);\n    }\n}"))
bug("c06-proc2", "C06", (M, "            process_file(&mut input, &mut temp_processed).unwrap();", "            process_file(&mut input, &mut temp_processed).ok();"))
bug("c06-save", "C06", (M, "    println!(\"Writing the token set to {}.\", output_path.display());\n    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    std::fs::write(&output_path, serialized).unwrap();\n}\n\nfn save", "    let serialized = serde_json::to_string(&stats.to_json()).unwrap();\n    if std::fs::write(&output_path, serialized).is_err() {\n        println!(\"could not write\");\n    }\n}\n\nfn save"))
bug("c06-count", "C06", (M, "            Err(e) => panic!(\"{}\", e),", "            Err(e) => {\n                eprintln!(\"{}\", e);\n                break;\n            }"))
bug("c06-count2", "C06", (M, "            Err(e) => panic!(\"{}\", e),", "            Err(e) if e.kind() == std::io::ErrorKind::InvalidData => continue,\n            Err(e) => panic!(\"{}\", e),"))
bug("c06-sample", "C06", (FS, "            let read_bytes = self.file.read(&mut buffer).unwrap();\n\n            if", "            let read_bytes = self.file.read(&mut buffer).unwrap_or_default();\n\n            if"))
bug("c06-seek", "C06", (FS, """                    self.file
                        .seek(SeekFrom::Current(end as i64 - read_bytes as i64))
                        .unwrap();
""", """                    if self.file.seek(SeekFrom::Current(end as i64 - read_bytes as i64)).is_err() {
                        return Some(Sample::from_vec(buffer));
                    }
"""))
bug("c06-partial", "C06", (MS, "    while reader.read_until(10, &mut buffer).unwrap() > 0 {", "    while matches!(reader.read_until(10, &mut buffer), Ok(n) if n > 0) {"))
bug("c06-exit", "C06", (M, "    process_file(&mut input, &mut output).unwrap();\n}", "    if let Err(e) = process_file(&mut input, &mut output) {\n        eprintln!(\"{}\", e);\n        std::process::exit(0);\n    }\n}"))
bug("c06-bufsave", "C06", (M, """    let serialized = serde_json::to_string(&stats.to_json()).unwrap();
    std::fs::write(&output_path, serialized).unwrap();
}

fn optimize_with""", """    let writer = std::io::BufWriter::new(File::create(&output_path).unwrap());
    serde_json::to_writer(writer, &stats.to_json()).unwrap();
}

fn optimize_with"""))
bug("c06-create", "C06", (M, "    let mut output = File::create(output).unwrap();", "    let mut output = match File::create(output) {\n        Ok(f) => f,\n        Err(_) => return,\n    };"))
bug("c06-early", "C06", (P, "        line.clear();\n    }", "        line.clear();\n        if processed.len() > 1 << 20 {\n            return Ok(());\n        }\n    }"))
same("c06-match", (M, "    process_file(&mut input, &mut output).unwrap();\n}", "    match process_file(&mut input, &mut output) {\n        Ok(()) => {}\n        Err(e) => panic!(\"{}\", e),\n    }\n}"))
same("c06-exit1", (M, "    process_file(&mut input, &mut output).unwrap();\n}", "    if let Err(e) = process_file(&mut input, &mut output) {\n        eprintln!(\"{}\", e);\n        std::process::exit(1);\n    }\n}"))
same("c06-flush", (P, "    writer.flush()", "    writer.flush()?;\n    Ok(())"))
same("c06-bufsave", (M, """    let serialized = serde_json::to_string(&stats.to_json()).unwrap();
    std::fs::write(&output_path, serialized).unwrap();
}

fn optimize_with""", """    let mut file = File::create(&output_path).unwrap();
    let serialized = serde_json::to_string(&stats.to_json()).unwrap();
    std::io::Write::write_all(&mut file, serialized.as_bytes()).unwrap();
}

fn optimize_with"""))
same("c06-helper", (P, "    writer.flush()", "    finish(&mut writer)"), (P, "pub fn process_file", """fn finish<W: Write>(w: &mut W) -> io::Result<()> {
    w.flush()
}

pub fn process_file"""))
same("c06-result", (M, "fn process(filename: &str, output: &str) {", "fn process_res(filename: &str, output: &str) -> std::io::Result<()> {\n    let mut input = File::open(filename)?;\n    let mut output = File::create(output)?;\n    process_file(&mut input, &mut output)\n}\n\nfn process(filename: &str, output: &str) {"),
     (M, """    let mut input = File::open(filename).unwrap();
    let mut output = File::create(output).unwrap();

    process_file(&mut input, &mut output).unwrap();
""", "    process_res(filename, output).unwrap()\n"))

# ---- C07
MP = '''            let filename = temp_processed.path().to_str().unwrap().to_string();
            (filename, Some(temp_processed))'''
bug("c07 temp dropped at once", "C07", (M, MP, '''            let filename = temp_processed.path().to_str().unwrap().to_string();
            (filename, None)'''))
bug("c07 underscore", "C07", (M, "let (filename, _temp) = maybe_process_file(filename_raw, filename_processed, processing);", "let filename = maybe_process_file(filename_raw, filename_processed, processing).0;"))
bug("c07 keep", "C07", (M, MP, '''            let (_, path) = temp_processed.keep().unwrap();
            let filename = path.to_str().unwrap().to_string();
            (filename, None)'''))
bug("c07 forget", "C07", (M, MP, '''            let filename = temp_processed.path().to_str().unwrap().to_string();
            std::mem::forget(temp_processed);
            (filename, None)'''))
bug("c07 drop before tokenizing", "C07", (M, '''    println!("Opening {}", &filename);
    let sampler = FileSampler::new(&filename, 1 << 24, None);
''', '''    println!("Opening {}", &filename);
    let sampler = FileSampler::new(&filename, 1 << 24, None);
    drop(_temp);
'''))
bug("c07 drop after first sampler", "C07", (M, '''    let stats = if let Some(min_data_size) = min_data_size {
        optimize_with_increasing_data''', '''    if min_data_size.is_some() {
        drop(_temp);
    }
    let stats = if let Some(min_data_size) = min_data_size {
        optimize_with_increasing_data'''))
same("c07 struct for the data file", (M, '''fn maybe_process_file(
    filename_raw: &str,
    filename_processed: Option<&str>,
    processing: Processing,
) -> (String, Option<NamedTempFile>) {''', '''struct DataFile {
    filename: String,
    _temp: Option<NamedTempFile>,
}

fn maybe_process_file(
    filename_raw: &str,
    filename_processed: Option<&str>,
    processing: Processing,
) -> DataFile {
    let (filename, _temp) = maybe_process_file_impl(filename_raw, filename_processed, processing);
    DataFile { filename, _temp }
}

fn maybe_process_file_impl(
    filename_raw: &str,
    filename_processed: Option<&str>,
    processing: Processing,
) -> (String, Option<NamedTempFile>) {'''),
 (M, '''    let (filename, _temp) =
        maybe_process_file(filename_raw, filename_processed, token_set.processing);''', '''    let data_file = maybe_process_file(filename_raw, filename_processed, token_set.processing);
    let filename = data_file.filename.clone();'''),
 (M, "let (filename, _temp) = maybe_process_file(filename_raw, filename_processed, processing);", "let DataFile { filename, _temp } = maybe_process_file(filename_raw, filename_processed, processing);"))
same("c07 temp dropped explicitly at the end", (M, '''    let output_path = tokens_dir_path.join(format!("{}.json", token_set.name()));
    println!("Writing the token set to {}.", output_path.display());
    let serialized = serde_json::to_string(&stats.to_json()).unwrap();
    std::fs::write(&output_path, serialized).unwrap();
}

fn save_tokens''', '''    drop(_temp);
    let output_path = tokens_dir_path.join(format!("{}.json", token_set.name()));
    println!("Writing the token set to {}.", output_path.display());
    let serialized = serde_json::to_string(&stats.to_json()).unwrap();
    std::fs::write(&output_path, serialized).unwrap();
}

fn save_tokens'''))
same("c07 into_temp_path", (M, "fn maybe_process_file(\n    filename_raw: &str,\n    filename_processed: Option<&str>,\n    processing: Processing,\n) -> (String, Option<NamedTempFile>) {", "fn maybe_process_file(\n    filename_raw: &str,\n    filename_processed: Option<&str>,\n    processing: Processing,\n) -> (String, Option<tempfile::TempPath>) {"),
 (M, MP, '''            let path = temp_processed.into_temp_path();
            (path.to_str().unwrap().to_string(), Some(path))'''))

# ---- C08
O = "optimize.rs"
SV = '''    let output_path = tokens_dir.join(format!("{}.json", stats.token_set.name()));
    println!("Writing the token set to {}.", output_path.display());
    let serialized = serde_json::to_string(&stats.to_json()).unwrap();
    std::fs::write(&output_path, serialized).unwrap();'''
bug("c08 tokens only", "C08", (M, SV, SV.replace("stats.to_json()", "stats.token_set.to_json()")))
bug("c08 not if it exists", "C08", (M, SV, SV.replace("    std::fs::write(&output_path, serialized).unwrap();", "    if !output_path.exists() {\n        std::fs::write(&output_path, serialized).unwrap();\n    }")))
bug("c08 sampled statistics", "C08", (M, "return new_full_stats;", "return stats;"))
bug("c08 last sample", "C08", (M, "    optimizer.optimize(&full_sampler, tokenset)\n}", "    let sampler = MemorySampler::sample_from_file(filename, full_size, 1 << 20);\n    optimizer.optimize(&sampler, tokenset)\n}"))
bug("c08 stale statistics", "C08", (O, "    token_set.sort();\n    tokenizer_cache.get_stats(&token_set).clone()", "    token_set.sort();\n    let mut result = stats.clone();\n    result.token_set = token_set;\n    result"))
bug("c08 first statistics", "C08", (O, "    token_set.sort();\n    tokenizer_cache.get_stats(&token_set).clone()", "    stats"))
bug("c08 name of the given set", "C08", (M, 'let output_path = tokens_dir.join(format!("{}.json", stats.token_set.name()));', 'let output_path = tokens_dir.join(format!("tokens{}.json", stats.token_set.name()));'))
bug("c08 step dropped", "C08", (O, "            token_set = new_token_set;\n            if Instant", "            if new_token_set.ntokens() >= token_set.ntokens() {\n                token_set = new_token_set;\n            }\n            if Instant"))
bug("c08 total of bytes", "C08", ("stats2.rs", '"total_tokens": self.total_tokens,', '"total_tokens": self.token_counts.iter().sum::<u64>(),'))
same("c08 shared writer", (M, SV, "    write_stats(stats, &stats.token_set.name(), tokens_dir);"),
  (M, '''    let output_path = tokens_dir_path.join(format!("{}.json", token_set.name()));
    println!("Writing the token set to {}.", output_path.display());
    let serialized = serde_json::to_string(&stats.to_json()).unwrap();
    std::fs::write(&output_path, serialized).unwrap();
}
''', '''    write_stats(&stats, &token_set.name(), tokens_dir_path);
}

fn write_stats(stats: &TokenStats, name: &str, dir: &Path) {
    let output_path = dir.join(name.to_string() + ".json");
    println!("Writing the token set to {}.", output_path.display());
    let text = serde_json::to_string(&stats.to_json()).unwrap();
    std::fs::write(output_path, text).unwrap();
}
'''))
same("c08 writer", (M, SV, '''    let mut output_path = tokens_dir.to_path_buf();
    output_path.push(format!("{}.json", stats.token_set.name()));
    println!("Writing the token set to {}.", output_path.display());
    let file = File::create(&output_path).unwrap();
    let mut writer = std::io::BufWriter::new(file);
    serde_json::to_writer(&mut writer, &stats.to_json()).unwrap();
    std::io::Write::flush(&mut writer).unwrap();'''))
same("c08 to_vec", (M, SV, SV.replace("serde_json::to_string", "serde_json::to_vec_pretty")))
same("c08 while let", (O, '''    loop {
        if let Some(new_token_set) = optimization_step(
            &token_set,
            ntokens,
            bytes_optimizer,
            tokenizer_cache,
            &mut removal_count,
        ) {
            token_set = new_token_set;
            if Instant::now() - last_save > Duration::from_secs(60) {
                save_tokens(&token_set, tokens_dir);
                last_save = Instant::now();
            }
        } else {
            break;
        }
    }
''', '''    while let Some(better) = optimization_step(
        &token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        &mut removal_count,
    ) {
        token_set = better;
        if last_save.elapsed() > Duration::from_secs(60) {
            save_tokens(&token_set, tokens_dir);
            last_save = Instant::now();
        }
    }
'''))
same("c08 no clone", (O, "    tokenizer_cache.get_stats(&token_set).clone()", "    tokenizer_cache.get_stats(&token_set)"))
same("c08 recursion-free samples", (M, '''    while size < full_size {
        let sampler''', '''    loop {
        if size >= full_size {
            break;
        }
        let sampler'''))
same("c08 json order", ("stats2.rs", '''        let mut result = self.token_set.to_json();

''', ""), ("stats2.rs", '''        result["stats"] = stats;
''', '''        let mut result = self.token_set.to_json();
        result["stats"] = stats;
'''))

# ---- C09
bug("c09 next to the data", "C09", (M, 'let output_path = tokens_dir_path.join(format!("{}.json", token_set.name()));', 'let output_path = Path::new(input_tokens_path).with_file_name(format!("{}.json", token_set.name()));'))
bug("c09 data dir", "C09", (M, "        &tokens_dir_path,\n    );", "        Path::new(filename_raw),\n    );"))
bug("c09 named temp in cwd", "C09", (M, "let mut temp_processed = NamedTempFile::new().unwrap();", 'let mut temp_processed = NamedTempFile::new_in(".").unwrap();'))
bug("c09 backup", "C09", (M, SV, SV.replace("    std::fs::write", "    let _ = std::fs::rename(&output_path, output_path.with_extension(\"bak\"));\n    std::fs::write")))
bug("c09 log", "C09", (O, "    let mut removal_count = HashMap::new();\n", '    let mut removal_count = HashMap::new();\n    let _ = std::fs::write("optimize.log", token_set.name());\n'))
bug("c09 worker log", "C09", (BT, "    results_tx.send(stats).unwrap();", '    let _ = std::fs::OpenOptions::new().append(true).create(true).open("/tmp/worker.log");\n    results_tx.send(stats).unwrap();'))
bug("c09 open data for append", "C09", (M, "            let mut input = File::open(filename_raw).unwrap();", "            let mut input = std::fs::OpenOptions::new().read(true).write(true).open(filename_raw).unwrap();"))
bug("c09 persist", "C09", (M, "process_file(&mut input, &mut temp_processed).unwrap();\n", 'process_file(&mut input, &mut temp_processed).unwrap();\n            let _ = std::fs::copy(temp_processed.path(), format!("{}.processed", filename_raw));\n'))
bug("c09 swapped", "C09", (M, "    process_file(&mut input, &mut output).unwrap();", "    process_file(&mut output, &mut input).unwrap();"))
bug("c09 name with slash", "C09", (T, '"tokens{}_{}_{}",', '"{1}/tokens{0}_{1}_{2}",'))
same("c09 helper for the path", (M, SV, SV.replace('tokens_dir.join(format!("{}.json", stats.token_set.name()))', "token_set_path(tokens_dir, &stats.token_set)")),
  (M, "fn save_tokens(", "fn token_set_path(dir: &Path, token_set: &TokenSet) -> std::path::PathBuf {\n    dir.join(format!(\"{}.json\", token_set.name()))\n}\n\nfn save_tokens("))
same("c09 open options", (M, "    let mut output = File::create(output).unwrap();", "    let mut output = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(output).unwrap();"))
same("c09 writer", (P, "    let mut writer = BufWriter::new(output);", "    let mut writer = BufWriter::with_capacity(1 << 16, output);"))
same("c09 helper in process_file", (P, '''    while reader.read_line(&mut line)? > 0 {
        let processed = process(&line);
        writer.write_all(processed.as_bytes())?;
        line.clear();
    }
''', '''    while reader.read_line(&mut line)? > 0 {
        write_line(&mut writer, &line)?;
        line.clear();
    }
'''), (P, "pub fn process_file<", "fn write_line<W: Write>(writer: &mut W, line: &str) -> io::Result<()> {\n    writer.write_all(process(line).as_bytes())\n}\n\npub fn process_file<"))

bug("c22 output not truncated", "C22", (M, "    let mut output = File::create(output).unwrap();", "    let mut output = std::fs::OpenOptions::new().write(true).create(true).open(output).unwrap();"))
bug("c22 output appended", "C22", (M, "    let mut output = File::create(output).unwrap();", "    let mut output = std::fs::OpenOptions::new().append(true).create(true).open(output).unwrap();"))
bug("c22 temp of another file", "C22", (M, "            let mut input = File::open(filename_raw).unwrap();", "            let mut input = File::open(filename_raw.trim_end()).unwrap();"))
bug("c08 result not truncated", "C08", (M, SV, SV.replace("    std::fs::write(&output_path, serialized).unwrap();", "    let mut f = std::fs::OpenOptions::new().write(true).create(true).open(&output_path).unwrap();\n    std::io::Write::write_all(&mut f, serialized.as_bytes()).unwrap();")))

# ---- C27
bug("c27 raw size of processed", "C27", (M, "    let initial_size = std::fs::metadata(filename_raw).unwrap().len();\n\n    let input_token_set", "    let initial_size = std::fs::metadata(&filename).unwrap().len();\n\n    let input_token_set"))
bug("c27 convert size of processed", "C27", (M, "    let initial_size = std::fs::metadata(filename_raw).unwrap().len();\n\n    println!(\"Opening", "    let initial_size = std::fs::metadata(&filename).unwrap().len();\n\n    println!(\"Opening"))
bug("c27 no mode check", "C27", (M, """        assert_eq!(
            token_set.processing, processing,
            "The input token set was made for differently processed data."
        );
""", """        debug_assert!(token_set.tokens.len() > 0);
"""))
bug("c27 processed even if raw", "C27", (M, "        (_, Processing::Raw) => (filename_raw.to_string(), None),\n        (Some(f), Processing::CapsWords) => (f.to_string(), None),", "        (Some(f), _) => (f.to_string(), None),\n        (_, Processing::Raw) => (filename_raw.to_string(), None),"))
bug("c27 full sampler on raw", "C27", (M, "optimize_with_increasing_data(&optimizer, &filename, min_data_size, input_token_set)", "optimize_with_increasing_data(&optimizer, filename_raw, min_data_size, input_token_set)"))
bug("c27 large file raw", "C27", (M, "optimizer.optimize(&FileSampler::new(&filename, 1 << 24, None), input_token_set)", "optimizer.optimize(&FileSampler::new(filename_raw, 1 << 24, None), input_token_set)"))
bug("c27 bytes always raw", "C27", (O, "(None, TokenType::Bytes) => TokenSet::new_bytes(processing),", "(None, TokenType::Bytes) => TokenSet::new_bytes(Processing::Raw),"))
bug("c27 bits2 mode", "C27", (T, "let mut token_set = Self::new(4, processing, TokenType::Bits2, split_paragraphs);", "let mut token_set = Self::new(4, Processing::Raw, TokenType::Bits2, split_paragraphs);"))
bug("c27 convert by file", "C27", (M, "maybe_process_file(filename_raw, filename_processed, token_set.processing);", "maybe_process_file(filename_raw, filename_processed, if filename_processed.is_some() { Processing::CapsWords } else { token_set.processing });"))
bug("c27 no initial size", "C27", (O, "TokenizerCache::new(sampler, initial_size)", "TokenizerCache::new(sampler, initial_size.filter(|&n| n > 0 && processing != Processing::Raw))"))
bug("c27 sort resets mode", "C27", (T, "        self.sequences.retain(|s| s.string != token);", "        self.sequences.retain(|s| s.string != token);\n        if self.tokens.len() > 1024 {\n            self.processing = Processing::CapsWords;\n        }"))
same("c27 if raw", (M, """    match (filename_processed, processing) {
        (_, Processing::Raw) => (filename_raw.to_string(), None),
        (Some(f), Processing::CapsWords) => (f.to_string(), None),
        (None, Processing::CapsWords) => {
            println!("Pre-processing the data file... ");
            let mut temp_processed = NamedTempFile::new().unwrap();
            let mut input = File::open(filename_raw).unwrap();
            process_file(&mut input, &mut temp_processed).unwrap();
            println!("done");
            let filename = temp_processed.path().to_str().unwrap().to_string();
            (filename, Some(temp_processed))
        }
    }
""", """    if processing == Processing::Raw {
        return (filename_raw.to_string(), None);
    }
    if let Some(given) = filename_processed {
        return (String::from(given), None);
    }
    let mut temp = NamedTempFile::new().unwrap();
    {
        let mut source = File::open(filename_raw).unwrap();
        process_file(&mut source, &mut temp).unwrap();
    }
    let name = temp.path().to_str().unwrap().to_owned();
    (name, Some(temp))
"""))
same("c27 mode check first", (M, """        assert_eq!(
            token_set.processing, processing,
            "The input token set was made for differently processed data."
        );
""", """        if token_set.processing != processing {
            panic!("The input token set was made for differently processed data.");
        }
"""))
same("c27 helper for size", (M, "    let initial_size = std::fs::metadata(filename_raw).unwrap().len();\n\n    let input_token_set", "    let initial_size = file_size(filename_raw);\n\n    let input_token_set"), (M, "fn read_token_set(", "fn file_size(name: &str) -> u64 {\n    let meta = std::fs::metadata(name).unwrap();\n    meta.len()\n}\n\nfn read_token_set("))

# ---- C30
bug("c30 swapped dirs", "C30", (M, "} => load_save_tokens(data, processed_data.as_deref(), input_tokens, tokens_dir),", "} => load_save_tokens(data, processed_data.as_deref(), input_tokens, std::path::Path::new(input_tokens).parent().and_then(|p| p.to_str()).unwrap_or(tokens_dir)),"))
bug("c30 long names", "C30", (M, "        #[arg(long)]\n        min_data_size: Option<usize>,", "        #[arg(long, default_value = \"1048576\")]\n        min_data_size: Option<usize>,"))
bug("c30 id", "C30", (M, "        #[arg(short, long)]\n        input_tokens: Option<String>,", "        #[arg(short, long, default_value = \"tokens.json\")]\n        input_tokens: Option<String>,"))
bug("c30 parser", "C30", (M, "        #[arg(short, long)]\n        ntokens: usize,", "        #[arg(short, long, value_parser = parse_count)]\n        ntokens: usize,"), (M, "#[derive(Parser, Debug)]\nstruct Args", "fn parse_count(s: &str) -> Result<usize, std::num::ParseIntError> {\n    s.parse::<usize>().map(|n| n.min(65536))\n}\n\n#[derive(Parser, Debug)]\nstruct Args"))
bug("c30 ntokens clamp", "C30", (M, "            *ntokens,\n            data,", "            (*ntokens).max(256),\n            data,"))
bug("c30 min size floor", "C30", (M, "    let mut size = min_data_size;", "    let mut size = min_data_size.max(1 << 20);"))
bug("c30 input ignored", "C30", (M, "    optimizer.optimize(&full_sampler, tokenset)\n}", "    optimizer.optimize(&full_sampler, if size > min_data_size { tokenset } else { None })\n}"))
bug("c30 large file ignores input", "C30", (M, "optimizer.optimize(&FileSampler::new(&filename, 1 << 24, None), input_token_set)", "optimizer.optimize(&FileSampler::new(&filename, 1 << 24, None), None)"))
bug("c30 type", "C30", (O, "(None, TokenType::Bits4) => TokenSet::new_bits4(processing, true),", "(None, TokenType::Bits4) => TokenSet::new_bits2(processing, true),"))
bug("c30 huff size", "C30", (O, "            HuffOptimizer::optimize_bytes(&stats, ntokens)\n", "            HuffOptimizer::optimize_bytes(&stats, 256)\n"))
bug("c30 enum name", "C30", (T, "    /// Ext tokens 0 and 1", "    #[value(name = \"bytes\")]\n    /// Ext tokens 0 and 1"), )
bug("c30 process output", "C30", (M, "Command::Process { data, output } => process(data.as_str(), output.as_str()),", "Command::Process { data, output } => process(output.as_str(), data.as_str()),"))
bug("c30 count as process", "C30", (M, "        #[arg(short, long)]\n        output: String,", "        #[arg(short, long, id = \"data\", default_value = \"out.txt\")]\n        output: String,"))
bug("c30 set from dir", "C30", (M, "    let token_set = read_token_set(input_tokens_path);", "    let token_set = if Path::new(input_tokens_path).is_file() { read_token_set(input_tokens_path) } else { TokenSet::new_bytes(Processing::Raw) };"))
same("c30 renamed fields", (M, "        data: String,\n\n        #[arg(short, long)]\n        output: String,", "        data: String,\n\n        #[arg(short = 'o', long = \"output\")]\n        target: String,"), (M, "Command::Process { data, output } => process(data.as_str(), output.as_str()),", "Command::Process { data, target } => process(data.as_str(), target.as_str()),"))
same("c30 renamed variants", (M, "    CountChars {\n", "    #[command(name = \"count-chars\")]\n    Count {\n"), (M, "Command::CountChars { data } => count_chars(data.as_str()),", "Command::Count { data } => count_chars(data),"))
same("c30 inlined process", (M, "Command::Process { data, output } => process(data.as_str(), output.as_str()),", "Command::Process { data, output } => {\n            let mut from = File::open(data).unwrap();\n            let mut to = File::create(output).unwrap();\n            process_file(&mut from, &mut to).unwrap();\n        }"))
same("c30 options struct", (M, "enum Command {", "enum Action {"), (M, "command: Command,", "command: Action,"), (M, "Command::ConvertTokens {", "Action::ConvertTokens {"), (M, "Command::Optimize {", "Action::Optimize {"), (M, "Command::Process {", "Action::Process {"), (M, "Command::CountChars {", "Action::CountChars {"))
same("c30 help text", (M, "        #[arg(short, long)]\n        ntokens: usize,", "        /// Number of tokens wanted\n        #[arg(short, long, value_name = \"N\")]\n        ntokens: usize,"))

# ---- C13
GS = """        self.cache.insert(key.clone(), stats.clone());
        stats
    }
"""
bug("c13 key by name", "C13", (BT, "        let value = token_set.to_json();\n        serde_json::to_string(&value).unwrap()", "        let value = token_set.to_json();\n        serde_json::to_string(&value[\"tokens\"]).unwrap()"))
bug("c13 key of caller", "C13", (BT, "        let stats = tokenize_file(&token_set, self.sampler, self.initial_size);\n        let key", "        let stats = tokenize_file(&token_set, self.sampler, self.initial_size);\n        token_set.sequences.retain(|s| s.tokens.len() > 2);\n        let key"))
bug("c13 key before change", "C13", (BT, "        let mut stats = tokenize_file(&token_set, self.sampler, self.initial_size);", "        if token_set.tokens.len() > 60000 {\n            token_set.split_paragraphs = false;\n        }\n        let mut stats = tokenize_file(&token_set, self.sampler, self.initial_size);"))
bug("c13 cleared counts", "C13", (BT, "        stats.pair_counts.clear();", "        stats.pair_counts.clear();\n        stats.seq_counts.clear();"))
bug("c13 clone drops", "C13", ("stats2.rs", "            seq_counts: self.seq_counts.clone(),\n            pair_counts: Vec::new(),", "            seq_counts: self.token_counts.clone(),\n            pair_counts: Vec::new(),"))
bug("c13 clone total", "C13", ("stats2.rs", "            scanned_bytes: self.scanned_bytes,\n            token_counts: self.token_counts.clone(),", "            scanned_bytes: self.total_tokens,\n            token_counts: self.token_counts.clone(),"))
bug("c13 json without sequences", "C13", (T, ".filter(|s| s.tokens.len() > 1)", ".filter(|s| s.tokens.len() > 1 && s.string[0] >= 32)"))
bug("c13 json lengths", "C13", (T, '"split_paragraphs": self.split_paragraphs,', '"split_paragraphs": true,'))
bug("c13 no size", "C13", (BT, "        let stats = tokenize_file(&token_set, self.sampler, self.initial_size);\n        let key", "        let stats = tokenize_file(&token_set, self.sampler, None);\n        let key"))
bug("c13 hit changes", "C13", (BT, "            return stats.clone();\n", "            let mut stats = stats.clone();\n            stats.initial_size = stats.initial_size.or(Some(stats.scanned_bytes));\n            return stats;\n"))
bug("c13 hash key", "C13", (BT, "        serde_json::to_string(&value).unwrap()\n", "        let text = serde_json::to_string(&value).unwrap();\n        text.chars().take(1 << 16).collect()\n"))
bug("c13 no type", "C13", (T, '            "type": self.token_type,\n', ''))
same("c13 entry api", (BT, """        if let Some(stats) = self.cache.get(&key) {
            return stats.clone();
        }

        let mut stats = tokenize_file(&token_set, self.sampler, self.initial_size);
        stats.pair_counts.clear();
        stats.pair_counts.shrink_to_fit();
        self.cache.insert(key.clone(), stats.clone());
        stats
""", """        match self.cache.get(&key) {
            Some(found) => found.clone(),
            None => {
                let measured = tokenize_file(&token_set, self.sampler, self.initial_size).clone_without_pairs();
                self.cache.insert(key, measured.clone());
                measured
            }
        }
"""))
same("c13 contains", (BT, """        if let Some(stats) = self.cache.get(&key) {
            return stats.clone();
        }
""", """        if self.cache.contains_key(&key) {
            return self.cache[&key].clone();
        }
"""))
same("c13 value text", (BT, "        let value = token_set.to_json();\n        serde_json::to_string(&value).unwrap()", "        token_set.to_json().to_string()"))
same("c13 helper sorted", (BT, """        let mut token_set = token_set.clone();
        token_set.sort();

        let stats = tokenize_file""", """        let token_set = Self::canonical(token_set);

        let stats = tokenize_file"""), (BT, "    fn get_key(", "    fn canonical(token_set: &TokenSet) -> TokenSet {\n        let mut copy = token_set.clone();\n        copy.sort();\n        copy\n    }\n\n    fn get_key("))
same("c13 insert then get", (BT, GS, """        self.cache.insert(key.clone(), stats);
        self.cache.get(&key).unwrap().clone()
    }
"""))

# ---- C10, C11, C14, C15, C16, C28
OB = "optimize_bytes.rs"
bug("c10 le", "C10", (O, "            if newer_stats.total_tokens < stats.total_tokens {", "            if newer_stats.total_tokens <= stats.total_tokens {"))
bug("c10 first le", "C10", (O, "    if new_stats.total_tokens < stats.total_tokens {\n        println!(\"{}\", show_tokenset_diff(token_set, &new_token_set));", "    if new_stats.total_tokens <= stats.total_tokens {\n        println!(\"{}\", show_tokenset_diff(token_set, &new_token_set));"))
bug("c10 other stats", "C10", (O, "            if newer_stats.total_tokens < stats.total_tokens {", "            let stats = tokenizer_cache.get_stats(&new_token_set);\n            if newer_stats.total_tokens < stats.total_tokens {"))
bug("c10 bytes per token", "C10", (O, "            if newer_stats.total_tokens < stats.total_tokens {", "            if newer_stats.bytes_per_token() >= stats.bytes_per_token() {"))
bug("c10 scanned", "C10", (O, "            if newer_stats.total_tokens < stats.total_tokens {", "            if newer_stats.scanned_bytes < stats.total_tokens {"))
bug("c10 slack", "C10", (O, "            if new_stats.total_tokens < stats.total_tokens {\n                println!(\"{}\", show_tokenset_diff(token_set, &new_token_set));\n                println!(\"processed bytes / token: {}\", new_stats.bytes_per_token());\n                return Some(new_stats);", "            if new_stats.total_tokens < stats.total_tokens + stats.total_tokens / 1000000 {\n                println!(\"{}\", show_tokenset_diff(token_set, &new_token_set));\n                println!(\"processed bytes / token: {}\", new_stats.bytes_per_token());\n                return Some(new_stats);"))
bug("c10 wrong returned", "C10", (O, "        return Some(new_stats.token_set);\n    }\n\n    if let Some(new_stats) = remove_add_token(", "        return Some(BO::optimize_bytes(&new_stats, ntokens - token_set.n_long_tokens()));\n    }\n\n    if let Some(new_stats) = remove_add_token("))
bug("c10 grow two", "C10", (O, "            let stats = tokenizer_cache.get_stats(&new_tokenset);\n            println!(\"{}\", show_tokenset_diff(token_set, &new_tokenset));", "            let new_tokenset = add_token(&new_tokenset, bytes_optimizer, tokenizer_cache).unwrap_or(new_tokenset);\n            let stats = tokenizer_cache.get_stats(&new_tokenset);\n            println!(\"{}\", show_tokenset_diff(token_set, &new_tokenset));"))
bug("c10 le size", "C10 C11", (O, "    if token_set.ntokens() < ntokens {\n        if let Some(new_tokenset)", "    if token_set.ntokens() <= ntokens {\n        if let Some(new_tokenset)"))
bug("c10 keeps last tried", "C10", (O, "    mut token_set: TokenSet,\n    ntokens: usize,\n    bytes_optimizer: &BO,", "    mut token_set: TokenSet,\n    ntokens: usize,\n    bytes_optimizer: &BO,"), (O, "        } else {\n            break;\n        }\n    }\n\n    token_set.sort();", "        } else {\n            break;\n        }\n    }\n\n    token_set = BO::optimize_bytes(&stats, ntokens - token_set.n_long_tokens());\n    token_set.sort();"))
same("c10 flip", (O, "            if newer_stats.total_tokens < stats.total_tokens {", "            if !(stats.total_tokens <= newer_stats.total_tokens) {"))
same("c10 plus one", (O, "            if newer_stats.total_tokens < stats.total_tokens {", "            if newer_stats.total_tokens + 1 <= stats.total_tokens {"))
same("c10 continue", (O, """            let newer_stats = tokenizer_cache.get_stats(&newer_tokenset);
            if newer_stats.total_tokens < stats.total_tokens {
                println!();
                println!("{}", show_tokenset_diff(token_set, &newer_tokenset));
                println!("processed bytes / token: {}", newer_stats.bytes_per_token());
                return Some(newer_stats);
            }
""", """            let newer_stats = tokenizer_cache.get_stats(&newer_tokenset);
            let before = stats.total_tokens;
            if newer_stats.total_tokens >= before {
                continue;
            }
            println!();
            report(token_set, &newer_tokenset, &newer_stats);
            return Some(newer_stats);
"""), (O, "fn add_byte<BO", """fn report(before: &TokenSet, after: &TokenSet, stats: &TokenStats) {
    println!("{}", show_tokenset_diff(before, after));
    println!("processed bytes / token: {}", stats.bytes_per_token());
}

fn add_byte<BO"""))
same("c10 helper better", (O, "            if newer_stats.total_tokens < stats.total_tokens {", "            if improves(&newer_stats, &stats) {"), (O, "fn add_byte<BO", """fn improves(new: &TokenStats, old: &TokenStats) -> bool {
    new.total_tokens < old.total_tokens
}

fn add_byte<BO"""))
same("c10 split growth", (O, """    if token_set.ntokens() < ntokens {
        if let Some(new_tokenset) = add_token(token_set, bytes_optimizer, tokenizer_cache) {
            let stats = tokenizer_cache.get_stats(&new_tokenset);
            println!("{}", show_tokenset_diff(token_set, &new_tokenset));
            println!("processed bytes / token: {}", stats.bytes_per_token());
            return Some(stats);
        } else {
            return None;
        }
    }
""", """    if token_set.ntokens() < ntokens {
        let new_tokenset = add_token(token_set, bytes_optimizer, tokenizer_cache)?;
        let stats = tokenizer_cache.get_stats(&new_tokenset);
        println!("{}", show_tokenset_diff(token_set, &new_tokenset));
        println!("processed bytes / token: {}", stats.bytes_per_token());
        return Some(stats);
    }
"""))
same("c10 match add", (O, """    match (maybe_tokenset_byte, maybe_tokenset_token) {
        (None, None) => None,
        (Some((new_token_set, _)), None) => Some(new_token_set),
        (None, Some((new_token_set, _))) => Some(new_token_set),
        (Some((token_set_byte, byte_count)), Some((token_set_token, token_count))) => {
            if byte_count > token_count {
                Some(token_set_byte)
            } else {
                Some(token_set_token)
            }
        }
    }
""", """    let (token_set_byte, byte_count) = match maybe_tokenset_byte {
        Some(x) => x,
        None => return maybe_tokenset_token.map(|(ts, _)| ts),
    };
    if let Some((token_set_token, token_count)) = maybe_tokenset_token {
        if byte_count <= token_count {
            return Some(token_set_token);
        }
    }
    Some(token_set_byte)
"""))
bug("c11 first k", "C11", (O, "    let new_token_set = BO::optimize_bytes(&stats, ntokens - token_set.n_long_tokens());", "    let new_token_set = BO::optimize_bytes(&stats, ntokens + 1 - token_set.n_long_tokens());"))
bug("c11 no removal", "C11", (O, "        new_token_set.remove_token(token_idx);\n        assert!(new_token_set.ntokens() == ntokens - 1);\n", "        if token_idx + 1 < new_token_set.ntokens() {\n            new_token_set.remove_token(token_idx);\n        }\n"), (O, "        assert!(new_stats.token_set.ntokens() <= ntokens);\n        return Some(new_stats.token_set);\n    }\n\n    // if", "        return Some(new_stats.token_set);\n    }\n\n    // if"))
bug("c11 simple bound", "C11 C28", (OB, "        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);", "        let n_byte_tokens = min(n_byte_ext_tokens, 256);"))
bug("c11 huff bound", "C11", (OB, "            let n_byte_tokens = n_byte_ext_tokens - n_ext_tokens;", "            let n_byte_tokens = n_byte_ext_tokens - n_ext_tokens + n_ext_tokens / 10;"))
bug("c11 splits ge", "C11", (OB, "    while nodes.len() > parts {", "    while nodes.len() > parts + parts / 200 {"))
bug("c11 add extra", "C11", (O, "    new_tokenset.add_token(&new_token);\n", "    new_tokenset.add_token(&new_token);\n    if new_token.len() > 100 {\n        new_tokenset.add_token(&new_token[1..]);\n    }\n"))
same("c11 assert variable", (O, "        assert!(new_stats.token_set.ntokens() <= ntokens);\n        return Some(new_stats.token_set);\n    }\n\n    // if", "        let n = new_stats.token_set.ntokens();\n        assert!(n <= ntokens, \"too many tokens: {}\", n);\n        return Some(new_stats.token_set);\n    }\n\n    // if"))
same("c11 simple loop", (OB, """        for &byte in selected_bytes.iter() {
            new_token_set.add_token(&[byte]);
        }
""", """        for i in 0..selected_bytes.len() {
            let byte = selected_bytes[i];
            new_token_set.add_token(&[byte]);
        }
"""))
same("c11 simple take", (OB, "        let selected_bytes = &bytes[..n_byte_tokens];\n", ""), (OB, "        for &byte in selected_bytes.iter() {", "        for &byte in bytes.iter().take(n_byte_tokens) {"))
same("c11 simple if", (OB, "        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);", "        let mut n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;\n        if n_byte_tokens > 256 {\n            n_byte_tokens = 256;\n        }"))
same("c11 simple len", (OB, "        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);", "        let n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;"), (OB, "        let selected_bytes = &bytes[..n_byte_tokens];", "        let selected_bytes = &bytes[..n_byte_tokens.min(bytes.len())];"))
same("c11 huff match", (OB, """            if best_total_tokens.is_none() || total < best_total_tokens.unwrap() {
                best_token_set = Some(token_set);
                best_total_tokens = Some(total);
            }
""", """            let better = match best_total_tokens {
                None => true,
                Some(best) => total < best,
            };
            if better {
                best_total_tokens = Some(total);
                best_token_set = Some(token_set);
            }
"""))
same("c11 huff tuple", (OB, """        let mut best_token_set = None;
        let mut best_total_tokens = None;
""", """        let mut best: Option<(TokenSet, u64)> = None;
"""), (OB, """            if best_total_tokens.is_none() || total < best_total_tokens.unwrap() {
                best_token_set = Some(token_set);
                best_total_tokens = Some(total);
            }
""", """            let replace = match &best {
                None => true,
                Some((_, best_total)) => total < *best_total,
            };
            if replace {
                best = Some((token_set, total));
            }
"""), (OB, "        let mut best_token_set = best_token_set.unwrap();", "        let (mut best_token_set, _) = best.unwrap();"))
same("c11 splits loop", (OB, "    while nodes.len() > parts {\n", "    loop {\n        if nodes.len() <= parts {\n            break;\n        }\n"))
bug("c14 no pairs", "C14", (O, "    let stats = tokenizer_cache.get_stats_with_pairs(tokenset);\n\n    let maybe_tokenset_byte", "    let stats = tokenizer_cache.get_stats(tokenset);\n\n    let maybe_tokenset_byte"))
bug("c14 second", "C14", (O, "        let new_stats = tokenizer_cache.get_stats_with_pairs(&new_token_set);\n        if let Some((new_token_set, _))", "        let new_stats = tokenizer_cache.get_stats(&new_token_set);\n        if let Some((new_token_set, _))"))
bug("c14 cache first", "C14", (BT, "    pub fn get_stats_with_pairs(", "    pub fn get_stats_with_pairs("), (O, "    let maybe_tokenset_token = add_token_bpe(&stats);", "    let maybe_tokenset_token = add_token_bpe(&tokenizer_cache.get_stats(tokenset));"))
bug("c14 reader", "C14", (O, "    let stats = tokenizer_cache.get_stats(token_set);\n    let new_token_set = BO", "    let stats = tokenizer_cache.get_stats(token_set);\n    if stats.pair_counts.iter().all(|&c| c == 0) {\n        println!(\"No pairs\");\n        return None;\n    }\n    let new_token_set = BO"))
same("c14 helper pairs", (O, """    let mut pairs = (0..stats.pair_counts.len())
        .filter(|&i| stats.pair_counts[i] > 0)
        .collect::<Vec<usize>>();
    pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));
""", "    let pairs = pairs_by_frequency(stats);\n"), (O, "fn add_token_bpe(", """fn pairs_by_frequency(stats: &TokenStats) -> Vec<usize> {
    let mut pairs = Vec::new();
    for i in 0..stats.pair_counts.len() {
        if stats.pair_counts[i] > 0 {
            pairs.push(i);
        }
    }
    pairs.sort_by_key(|&i| -(stats.pair_counts[i] as i64));
    pairs
}

fn add_token_bpe("""))
bug("c15 fallback", "C15", (O, "        if is_valid_token(&candidate) {\n            new_token = candidate;", "        if is_valid_token(&candidate) || stats.pair_counts[pair_idx] > 1000 {\n            new_token = candidate;"))
bug("c15 last", "C15", (O, "        if is_valid_token(&candidate) {\n            new_token = candidate;", "        if is_valid_token(&candidate) || pairs.len() == 1 {\n            new_token = candidate;"))
bug("c15 range", "C15", (O, "    for i in 0..(s.len() - 2) {", "    for i in 0..(s.len() - 3) {"))
bug("c15 start", "C15", (O, "    for i in 0..(s.len() - 2) {", "    for i in 1..(s.len() - 2) {"))
bug("c15 one newline", "C15", (O, "        if s[i] == n && s[i + 1] == n && s[i + 2] != n {", "        if s[i] == n && s[i + 1] == n && s[i + 2] != n && s[i + 2] != b' ' {"))
bug("c15 when none", "C15", (O, "    if new_token.is_empty() {\n        dbg!", "    if new_token.is_empty() && !pairs.is_empty() {\n        if let (Token::Str(a), Token::Str(b)) = (&stats.token_set.tokens[pairs[0] / stats.ntokens()], &stats.token_set.tokens[pairs[0] % stats.ntokens()]) {\n            new_token = [a.as_slice(), b.as_slice()].concat();\n        }\n    }\n\n    if new_token.is_empty() {\n        dbg!"))
bug("c15 tested before", "C15", (O, "    new_tokenset.add_token(&new_token);\n", "    while new_token.ends_with(b\"\\n\\n \") {\n        new_token.pop();\n    }\n    new_token.push(b'\\n');\n    new_tokenset.add_token(&new_token);\n"))
same("c15 windows", (O, """    for i in 0..(s.len() - 2) {
        if s[i] == n && s[i + 1] == n && s[i + 2] != n {
            return false;
        }
    }

    true
""", """    !s.windows(3).any(|w| w[0] == n && w[1] == n && w[2] != n)
"""))
same("c15 windows all", (O, """    for i in 0..(s.len() - 2) {
        if s[i] == n && s[i + 1] == n && s[i + 2] != n {
            return false;
        }
    }

    true
""", """    s.windows(3).all(|w| w[0] != n || w[1] != n || w[2] == n)
"""))
same("c15 from two", (O, """    for i in 0..(s.len() - 2) {
        if s[i] == n && s[i + 1] == n && s[i + 2] != n {
            return false;
        }
    }
""", """    let mut i = 2;
    while i < s.len() {
        if s[i - 2] == n && s[i - 1] == n && s[i] != n {
            return false;
        }
        i += 1;
    }
"""))
same("c15 const", (O, "    let n = \"\\n\".as_bytes()[0];\n", "    let n = b'\\n';\n"))
same("c15 find", (O, """        if is_valid_token(&candidate) {
            new_token = candidate;
            token_count = stats.pair_counts[pair_idx];
            break;
        }
    }
""", """        if !is_valid_token(&candidate) {
            continue;
        }
        token_count = stats.pair_counts[pair_idx];
        new_token = candidate;
        break;
    }
"""))
same("c15 helper candidate", (O, """        let candidate = match (
            &stats.token_set.tokens[itoken1],
            &stats.token_set.tokens[itoken2],
        ) {
            (Token::Str(s1), Token::Str(s2)) => {
                s1.iter().chain(s2.iter()).cloned().collect::<Vec<u8>>()
            }
            _ => unreachable!(),
        };
""", """        let candidate = joined(&stats.token_set, itoken1, itoken2);
"""), (O, "fn add_token_bpe(", """fn joined(token_set: &TokenSet, first: usize, second: usize) -> Vec<u8> {
    match (&token_set.tokens[first], &token_set.tokens[second]) {
        (Token::Str(s1), Token::Str(s2)) => {
            let mut s = s1.clone();
            s.extend_from_slice(s2);
            s
        }
        _ => unreachable!(),
    }
}

fn add_token_bpe("""))
same("c15 option", (O, "    let mut new_token = Vec::new();\n    let mut token_count = 0;\n", "    let mut found = None;\n"), (O, """            new_token = candidate;
            token_count = stats.pair_counts[pair_idx];
            break;
""", """            found = Some((candidate, stats.pair_counts[pair_idx]));
            break;
"""), (O, """    if new_token.is_empty() {
        dbg!(&stats.token_set.tokens);
        dbg!(&stats.token_counts);
        dbg!(&stats.pair_counts);

        return None;
    }
""", """    let (new_token, token_count) = match found {
        Some(x) => x,
        None => {
            dbg!(&stats.token_set.tokens);
            dbg!(&stats.token_counts);
            dbg!(&stats.pair_counts);
            return None;
        }
    };
"""))
bug("c16 long drop", "C16", (OB, "                if s.len() > 1 {\n                    new_token_set.add_token(s);", "                if s.len() > 1 && s.len() < 64 {\n                    new_token_set.add_token(s);"))
bug("c16 long three", "C16", (OB, "                if s.len() > 1 {\n                    best_token_set.add_token(s);", "                if s.len() > 2 {\n                    best_token_set.add_token(s);"))
bug("c16 count", "C16", (OB, "        for token in token_stats.token_set.tokens.iter() {\n            if let Token::Str(s) = token {\n                if s.len() > 1 {", "        for (token, &count) in token_stats.token_set.tokens.iter().zip(token_stats.token_counts.iter()) {\n            if let Token::Str(s) = token {\n                if s.len() > 1 && count > 0 {"))
bug("c16 split", "C16", (OB, "            token_set.split_paragraphs = token_stats.token_set.split_paragraphs;\n", ""))
bug("c16 bits2 split", "C16", (OB, "TokenSet::new_bits2(stats.token_set.processing, stats.token_set.split_paragraphs)", "TokenSet::new_bits2(stats.token_set.processing, true)"))
bug("c16 processing", "C16", (OB, "optimize_bytes_tokenset(&counts, n_byte_tokens, n_ext_tokens, token_stats.token_set.processing)", "optimize_bytes_tokenset(&counts, n_byte_tokens, n_ext_tokens, Processing::CapsWords)"))
bug("c16 truncate", "C16", (OB, "        new_token_set\n    }\n}\n\npub struct Noop", "        new_token_set.tokens.truncate(65536);\n        new_token_set\n    }\n}\n\npub struct Noop"))
same("c16 filter", (OB, """        for token in stats.token_set.tokens.iter() {
            if let Token::Str(s) = token {
                if s.len() > 1 {
                    new_token_set.add_token(s);
                }
            }
        }

        new_token_set
""", """        add_long_tokens(&mut new_token_set, &stats.token_set);

        new_token_set
"""), (OB, "pub struct NoopBytesOptimizer {}", """fn add_long_tokens(target: &mut TokenSet, source: &TokenSet) {
    for token in &source.tokens {
        match token {
            Token::Str(s) if s.len() >= 2 => {
                target.add_token(s);
            }
            _ => {}
        }
    }
}

pub struct NoopBytesOptimizer {}"""))
same("c16 split param", (OB, "            token_set.split_paragraphs = token_stats.token_set.split_paragraphs;\n", ""), (OB, "optimize_bytes_tokenset(&counts, n_byte_tokens, n_ext_tokens, token_stats.token_set.processing)", "optimize_bytes_tokenset(&counts, n_byte_tokens, n_ext_tokens, token_stats.token_set.processing, token_stats.token_set.split_paragraphs)"), (OB, "    processing: Processing,\n) -> TokenSet {\n    let mut token_set = TokenSet::new(n_ext_tokens, processing, TokenType::BytesHuff, true);", "    processing: Processing,\n    split_paragraphs: bool,\n) -> TokenSet {\n    let mut token_set = TokenSet::new(n_ext_tokens, processing, TokenType::BytesHuff, split_paragraphs);"))
bug("c28 no min", "C28", (OB, "        let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);", "        let n_byte_tokens = n_byte_ext_tokens - stats.token_set.n_ext_tokens;"))
bug("c28 257", "C28", (OB, "- stats.token_set.n_ext_tokens, 256);", "- stats.token_set.n_ext_tokens, 260);"))
bug("c28 huff one", "C28", (OB, "        let max_ext_tokens = min(n_byte_ext_tokens - 1, 10);", "        let max_ext_tokens = min(n_byte_ext_tokens, 10);"))
bug("c28 huff empty", "C28", (OB, "        for n_ext_tokens in 2..=max_ext_tokens {", "        for n_ext_tokens in 4..=max_ext_tokens {"))
bug("c28 splits ge", "C28", (OB, "    while nodes.len() > parts {", "    while nodes.len() >= parts {"))
bug("c28 dup", "C28", (OB, "        let mut bytes = (0..=255).collect::<Vec<u8>>();", "        let mut bytes = (0..=255).map(|b: u8| b | 1).collect::<Vec<u8>>();"))

K = "tokenizer2.rs"
SUFL = """            for start in 1..=(span.string.len() - 1) {
                let suffix = &span.string[start..];
                if let Some(&idx) = span_by_str.get(suffix) {
                    span.suffix_span = idx;
                    break;
                }
            }
"""
bug("c25 cost le none", "C25", (K, "best_cost_state.unwrap().cost > cost {", "best_cost_state.unwrap().cost < cost {"))
bug("c25 no break", "C25", (K, "                    span.suffix_span = idx;\n                    break;\n", "                    span.suffix_span = idx;\n"))
bug("c25 start 2", "C25", (K, "for start in 1..=(span.string.len() - 1)", "for start in 2..=(span.string.len() - 1)"))
bug("c25 short", "C25", (K, "for start in 1..=(span.string.len() - 1)", "for start in 1..(span.string.len() - 1)"))
bug("c25 skip first", "C25", (K, "for span in spans[1..].iter_mut()", "for span in spans[2..].iter_mut()"))
bug("c25 seq cost", "C25", (K, "cost: seq.tokens.len() as u64,", "cost: (seq.tokens.len() as u64).max(2) - 1,"))
bug("c25 seq cost1", "C25", (K, "cost: seq.tokens.len() as u64,", "cost: 1,"))
bug("c25 link early", "C25", (K, """                span_idx = span.suffix_span;
            }

            cost_state""", """                if span.cost == 1 && span.string.len() > 8 { break; }
                span_idx = span.suffix_span;
            }

            cost_state"""))
bug("c25 prefix", "C25", (K, "for end in 1..=span.string.len() {", "for end in 1..span.string.len() {"))
bug("c25 states tokens", "C25", (K, "        for span in spans.iter() {\n            for end", "        for span in spans.iter().filter(|s| s.cost == 1) {\n            for end"))
bug("c25 suffix 1", "C25", (K, "                for start in 0..span_prefix.len() {", "                for start in (0..span_prefix.len()).rev() {"))
bug("c25 moves", "C25", (K, "                for start in 0..suffix.len() {", "                for start in 1..suffix.len() {"))
bug("c25 state keep", "C25", (K, "            state = &self.suffix_states[state.next[byte as usize]];\n", "            if byte != 0 { state = &self.suffix_states[state.next[byte as usize]]; }\n"))
bug("c25 cost of", "C25", (K, "cost_state[cost_state.len() - span.string.len()].cost;", "cost_state[cost_state.len().max(span.string.len() + 1) - span.string.len() - 1].cost;"))
bug("c25 back", "C25", (K, "            pos -= span.string.len();", "            pos -= span.string.len().min(255);"))
bug("c25 last span", "C25", (K, "                        cost,\n                        span: span_idx,", "                        cost,\n                        span: state.span_idx,"))
bug("c25 map shadow", "C25", (K, ".insert(seq.string.clone(), spans.len())", ".insert(seq.string.clone(), idx + 1)"))
bug("c26 set total", "C26", (K, "stats.total_tokens += cost_state", "stats.total_tokens = cost_state"))
bug("c26 bytes", "C26", (K, "stats.scanned_bytes += bytes.len() as u64;", "stats.scanned_bytes += cost_state.len() as u64;"))
bug("c26 over", "C26", (K, "stats.token_counts[token_id] += count\n", "stats.token_counts[token_id] = count\n"))
bug("c26 seq once", "C26", (K, "                    for &token_id in seq.tokens.iter() {", "                    for &token_id in seq.tokens.iter().take(1) {"))
bug("c26 seq tokens", "C26", (K, """                    for &token_id in seq.tokens.iter() {
                        stats.token_counts[token_id] += count;
                    }
""", "                    let _ = seq;\n"))
bug("c26 pair over seq", "C26", (K, """                Some(token)
            } else {
                None
            };""", """                Some(token)
            } else {
                next_token
            };"""))
bug("c26 pair order", "C26", (K, "let pair_id = token * ntokens + next;", "let pair_id = next * ntokens + token;"))
bug("c26 pair same", "C26", (K, "                    stats.pair_counts[pair_id] += 1;", "                    if token != next { stats.pair_counts[pair_id] += 1; }"))
bug("c26 span set", "C26", (K, "            span_counts[span_idx] += 1;", "            span_counts[span_idx] = 1;"))
bug("c26 loop from 2", "C26", (K, "for span_idx in 1..self.spans.len()", "for span_idx in 2..self.spans.len()"))
bug("c26 skip one", "C26", (K, "            let count = span_counts[span_idx];\n", "            let count = span_counts[span_idx];\n            if count < 2 { continue; }\n"))
bug("c26 clear", "C26", (K, "        stats.scanned_bytes +=", "        if bytes.is_empty() { stats.pair_counts.clear(); }\n        stats.scanned_bytes +="))
same("k links index", (K, "for span in spans[1..].iter_mut() {\n" + SUFL, """for i in 1..spans.len() {
            for start in 1..spans[i].string.len() {
                if let Some(&idx) = span_by_str.get(&spans[i].string[start..]) {
                    spans[i].suffix_span = idx;
                    break;
                }
            }
"""))
same("k links find_map", (K, "for span in spans[1..].iter_mut() {\n" + SUFL, """for span in spans.iter_mut().skip(1) {
            span.suffix_span = (1..span.string.len())
                .find_map(|start| span_by_str.get(&span.string[start..]).copied())
                .unwrap_or(0);
"""))
LS = """    fn longest_suffix(s: &[u8], from: usize, map: &HashMap<Vec<u8>, usize>) -> usize {
        for start in from..s.len() {
            if let Some(&idx) = map.get(&s[start..]) {
                return idx;
            }
        }
        0
    }

    fn create_spans("""
same("k longest helper", (K, "    fn create_spans(", LS), (K, SUFL, "            span.suffix_span = Self::longest_suffix(&span.string, 1, &span_by_str);\n"),
     (K, """                let mut suffix_span = 0;

                for start in 0..span_prefix.len() {
                    if let Some(&idx) = span_by_str.get(&span_prefix[start..]) {
                        suffix_span = idx;
                        break;
                    }
                }
""", "                let suffix_span = Self::longest_suffix(&span_prefix, 0, span_by_str);\n"),
     (K, """                let mut suffix_id = 0;

                for start in 0..suffix.len() {
                    let suffix_suffix = &suffix[start..];

                    if let Some(&id) = state_by_str.get(suffix_suffix) {
                        suffix_id = id;
                        break;
                    }
                }
""", "                let suffix_id = Self::longest_suffix(&suffix, 0, &state_by_str);\n"))
same("k while link", (K, "for span in spans[1..].iter_mut() {\n" + SUFL, """for span in spans[1..].iter_mut() {
            let mut start = 1;
            while start < span.string.len() {
                if let Some(&idx) = span_by_str.get(&span.string[start..]) {
                    span.suffix_span = idx;
                    break;
                }
                start += 1;
            }
"""))
same("k dp match", (K, """                if best_cost_state.is_none() || best_cost_state.unwrap().cost > cost {
                    best_cost_state = Some(CostState {
                        cost,
                        span: span_idx,
                    });
                }
""", """                let candidate = CostState { cost, span: span_idx };
                best_cost_state = match best_cost_state {
                    Some(best) if best.cost <= cost => Some(best),
                    _ => Some(candidate),
                };
"""))
same("k dp sentinel", (K, "let mut best_cost_state: Option<CostState> = None;", "let mut best = CostState { cost: u64::MAX, span: 0 };"), (K, """                if best_cost_state.is_none() || best_cost_state.unwrap().cost > cost {
                    best_cost_state = Some(CostState {
                        cost,
                        span: span_idx,
                    });
                }
""", """                if cost < best.cost {
                    best = CostState { cost, span: span_idx };
                }
"""), (K, "cost_state.push(best_cost_state.unwrap());", "assert!(best.span != 0);\n            cost_state.push(best);"))
same("k dp enumerate", (K, "for &byte in bytes.iter() {", "for (i, &byte) in bytes.iter().enumerate() {"), (K, "cost_state[cost_state.len() - span.string.len()].cost", "cost_state[i + 1 - span.string.len()].cost"))
same("k dp helper", (K, "    pub fn process_slice", """    fn best_at(&self, first_span: usize, cost_state: &[CostState]) -> CostState {
        let mut best: Option<CostState> = None;
        let mut span_idx = first_span;
        while span_idx > 0 {
            let span = &self.spans[span_idx];
            let cost = cost_state[cost_state.len() - span.string.len()].cost + span.cost;
            if best.map_or(true, |b| cost < b.cost) {
                best = Some(CostState { cost, span: span_idx });
            }
            span_idx = span.suffix_span;
        }
        best.unwrap()
    }

    pub fn process_slice"""), (K, """            let mut best_cost_state: Option<CostState> = None;
            let mut span_idx = state.span_idx;

            while span_idx != 0 {
                let span = &self.spans[span_idx];
                let prev_cost = cost_state[cost_state.len() - span.string.len()].cost;
                let cost = prev_cost + span.cost;
                if best_cost_state.is_none() || best_cost_state.unwrap().cost > cost {
                    best_cost_state = Some(CostState {
                        cost,
                        span: span_idx,
                    });
                }

                span_idx = span.suffix_span;
            }

            cost_state.push(best_cost_state.unwrap());
""", "            let best = self.best_at(state.span_idx, cost_state);\n            cost_state.push(best);\n"))
same("k state index", (K, "let mut state = &self.suffix_states[0];", "let mut state_id = 0;"), (K, "state = &self.suffix_states[state.next[byte as usize]];", "state_id = self.suffix_states[state_id].next[byte as usize];\n            let state = &self.suffix_states[state_id];"))
same("k dp loop", (K, "while span_idx != 0 {\n                let span", "loop {\n                if span_idx == 0 {\n                    break;\n                }\n                let span"))
same("k counts zip", (K, "        for span_idx in 1..self.spans.len() {\n            let count = span_counts[span_idx];\n            let span = &self.spans[span_idx];\n", "        for (span_idx, (span, &count)) in self.spans.iter().zip(span_counts.iter()).enumerate().skip(1) {\n"))
same("k counts zero", (K, "            let count = span_counts[span_idx];\n", "            let count = span_counts[span_idx];\n            if count == 0 {\n                continue;\n            }\n"))
same("k pair match", (K, """            next_token = if let SpanContent::Token(token) = span.content {
                if let Some(next) = next_token {
                    let pair_id = token * ntokens + next;
                    stats.pair_counts[pair_id] += 1;
                }

                Some(token)
            } else {
                None
            };""", """            let token = match span.content {
                SpanContent::Token(token) => Some(token),
                _ => None,
            };
            if let (Some(token), Some(next)) = (token, next_token) {
                stats.pair_counts[token * ntokens + next] += 1;
            }
            next_token = token;"""))
same("k back loop", (K, "        while pos > 0 {\n", "        loop {\n            if pos == 0 {\n                break;\n            }\n"))
same("k counts helper", (K, "            match span.content {\n                SpanContent::Sequence(seq_id) => {\n                    stats.seq_counts[seq_id] += count;\n                    let seq = &stats.token_set.sequences[seq_id];\n                    for &token_id in seq.tokens.iter() {\n                        stats.token_counts[token_id] += count;\n                    }\n                },", "            match span.content {\n                SpanContent::Sequence(seq_id) => Self::count_sequence(stats, seq_id, count),"),
     (K, "    fn update_stats(", """    fn count_sequence(stats: &mut TokenStats, seq_id: usize, count: u64) {
        stats.seq_counts[seq_id] += count;
        let tokens = &stats.token_set.sequences[seq_id].tokens;
        for i in 0..tokens.len() {
            stats.token_counts[tokens[i]] += count;
        }
    }

    fn update_stats("""))
same("k update order", (K, "        stats.total_tokens += cost_state.last().unwrap().cost;\n        stats.scanned_bytes += bytes.len() as u64;\n", "        let n = bytes.len();\n        stats.scanned_bytes += n as u64;\n        stats.total_tokens += cost_state[n].cost;\n"))
same("k spans enumerate", (K, """                if span_by_str.insert(string.clone(), spans.len()).is_some() {
                    dbg!(&token_set.tokens);
                    dbg!(string);
                    dbg!(spans);
                    dbg!(span_by_str);
                    panic!();
                }
""", """                let previous = span_by_str.insert(string.clone(), spans.len());
                assert!(previous.is_none(), "duplicate token");
"""))
same("k spans match", (K, "            if let Token::Str(string) = token {\n                if", "            let string = match token {\n                Token::Ext(_) => continue,\n                Token::Str(s) => s,\n            };\n            {\n                if"))
same("k states contains", (K, """                if state_by_str.contains_key(&span_prefix) {
                    continue;
                }

                let mut suffix_span = 0;""", """                if state_by_str.get(&span_prefix).is_some() {
                    continue;
                }

                let mut suffix_span = 0;"""))

bug("c29 no insert", "C29", (OB, "            enc.insert(0, top_token_id);\n", "            enc.push(top_token_id);\n"))
bug("c29 enc push", "C29", (OB, "            enc.insert(0, i);\n", "            enc.push(i);\n"))
bug("c29 enc drop", "C29", (OB, "            enc.insert(0, i);\n", "            if enc.len() < 3 { enc.insert(0, i); }\n"))
bug("c29 lo max", "C29", (OB, "lo: min(first_split.lo, second_split.lo),", "lo: second_split.lo,"))
bug("c29 top lo", "C29", (OB, "                (first_split.top, first_split.top_count)\n            } else {\n                (second_split.top, second_split.top_count)", "                (first_split.top, first_split.top_count)\n            } else {\n                (second_split.lo, second_split.top_count)"))
bug("c29 merge order", "C29", (OB, "let second = nodes.remove(best_idx + 1);", "let second = nodes.swap_remove(best_idx + 1);"))
bug("c29 insert end", "C29", (OB, "        nodes[best_idx] = new_node;", "        nodes.remove(best_idx);\n        nodes.push(new_node);"))
bug("c29 le", "C29", (OB, "    if counts.len() <= n_ext_tokens {", "    if counts.len() <= n_ext_tokens + 1 {"))
bug("c29 skip 2", "C29", (OB, "        if counts_hi == counts_lo + 1 {\n            continue;\n        }\n\n        let mut sub_counts = counts[counts_lo..counts_hi].to_vec();\n\n        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();\n        sub_counts.remove(top_idx);\n\n        let encs", "        if counts_hi <= counts_lo + 2 {\n            continue;\n        }\n\n        let mut sub_counts = counts[counts_lo..counts_hi].to_vec();\n\n        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();\n        sub_counts.remove(top_idx);\n\n        let encs"))
bug("c29 hi", "C29", (OB, "counts.binary_search(&(splits[i + 1].lo, 0)).unwrap_err()", "counts.binary_search(&(splits[i + 1].top, 0)).unwrap_err()"))
bug("c29 remove lo", "C29", (OB, "        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();\n        sub_counts.remove(top_idx);\n\n        let sub_encs", "        let top_idx = sub_counts.binary_search(&(split.lo, 0)).unwrap_err();\n        sub_counts.remove(top_idx);\n\n        let sub_encs"))
bug("c29 zero count", "C29", (OB, "counts[s[0] as usize] = (s[0], count + 1);", "counts[s[0] as usize] = (s[0], *count);"))
bug("c29 zero init", "C29", (OB, "(0..=255).map(|i| (i, 1))", "(0..=255).map(|i| (i, 0))"))
bug("c29 last", "C29", (OB, "if i == top_splits.len() - 1 {\n            counts.len()", "if i == top_splits.len() - 1 {\n            counts.len() - 1"))
bug("c29 more ext", "C29", (OB, "optimize_ext_encoding(sub_counts.as_slice(), n_ext_tokens);\n        for (ch, mut enc) in encs", "optimize_ext_encoding(sub_counts.as_slice(), n_ext_tokens + 1);\n        for (ch, mut enc) in encs"))
same("o29 map_or hi", (OB, """        let counts_hi = if i == splits.len() - 1 {
            counts.len()
        } else {
            counts.binary_search(&(splits[i + 1].lo, 0)).unwrap_err()
        };
""", """        let counts_hi = match splits.get(i + 1) {
            Some(next) => counts.binary_search(&(next.lo, 0)).unwrap_err(),
            None => counts.len(),
        };
"""))
same("o29 helper", (OB, "/// Optimizes the sequence suffixes", """fn split_bounds(counts: &[(u8, u64)], splits: &[CharsSplit], i: usize) -> (usize, usize) {
    let position = |byte: u8| counts.binary_search(&(byte, 0)).unwrap_err();
    let hi = if i + 1 < splits.len() { position(splits[i + 1].lo) } else { counts.len() };
    (position(splits[i].lo), hi)
}

/// Optimizes the sequence suffixes"""), (OB, """        let counts_lo = counts.binary_search(&(split.lo, 0)).unwrap_err();
        let counts_hi = if i == splits.len() - 1 {
            counts.len()
        } else {
            counts.binary_search(&(splits[i + 1].lo, 0)).unwrap_err()
        };
""", "        let (counts_lo, counts_hi) = split_bounds(counts, &splits, i);\n"), (OB, """        let counts_lo = counts.binary_search(&(split.lo, 0)).unwrap_err();
        let counts_hi = if i == top_splits.len() - 1 {
            counts.len()
        } else {
            counts
                .binary_search(&(top_splits[i + 1].lo, 0))
                .unwrap_err()
        };
""", "        let (counts_lo, counts_hi) = split_bounds(counts, &top_splits, i);\n"))
same("o29 filter", (OB, """        let mut sub_counts = counts[counts_lo..counts_hi].to_vec();

        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();
        sub_counts.remove(top_idx);

        let encs""", """        let sub_counts: Vec<(u8, u64)> = counts[counts_lo..counts_hi]
            .iter()
            .filter(|&&(ch, _)| ch != split.top)
            .cloned()
            .collect();

        let encs"""))
same("o29 concat", (OB, """        for (ch, mut enc) in sub_encs {
            enc.insert(0, i);
            encodings.push((ch, enc));
        }
""", """        for (ch, sub_enc) in sub_encs {
            let mut enc = vec![i];
            enc.extend(sub_enc);
            encodings.push((ch, enc));
        }
"""))
same("o29 extend", (OB, """        for (ch, mut enc) in sub_encs {
            enc.insert(0, i);
            encodings.push((ch, enc));
        }
""", """        encodings.extend(sub_encs.into_iter().map(|(ch, mut enc)| {
            enc.insert(0, i);
            (ch, enc)
        }));
"""))
same("o29 empty", (OB, """        if counts_hi == counts_lo + 1 {
            continue;
        }

        let mut sub_counts = counts[counts_lo..counts_hi].to_vec();

        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();
        sub_counts.remove(top_idx);

        let sub_encs""", """        let mut sub_counts = counts[counts_lo..counts_hi].to_vec();

        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();
        sub_counts.remove(top_idx);
        if sub_counts.is_empty() {
            continue;
        }

        let sub_encs"""))
same("o29 nodes", (OB, """    let mut nodes = Vec::new();
    for (ch, count) in counts {
        nodes.push(HuffmanNode {
            count: *count,
            content: HuffmanNodeContent::Leaf(*ch),
        });
    }
""", """    let mut nodes: Vec<HuffmanNode> = counts
        .iter()
        .map(|&(ch, count)| HuffmanNode {
            count,
            content: HuffmanNodeContent::Leaf(ch),
        })
        .collect();
"""), (OB, """    let mut splits = Vec::new();
    for node in nodes.iter() {
        splits.push(node_to_split(node));
    }

    splits
""", "    nodes.iter().map(node_to_split).collect()\n"))
same("o29 insert node", (OB, """        let second = nodes.remove(best_idx + 1);
        let dummy = HuffmanNode {
            count: 0,
            content: HuffmanNodeContent::Leaf(0),
        };
        let first = mem::replace(&mut nodes[best_idx], dummy);
        let new_node""", """        let second = nodes.remove(best_idx + 1);
        let first = nodes.remove(best_idx);
        let new_node"""), (OB, "        nodes[best_idx] = new_node;", "        nodes.insert(best_idx, new_node);"), (OB, "use std::mem;\n", ""))
same("o29 direct", (OB, """        return counts
            .iter()
            .enumerate()
            .map(|(i, &(ch, _))| (ch, vec![i]))
            .collect::<Vec<_>>();
""", """        let mut encodings = Vec::new();
        for i in 0..counts.len() {
            encodings.push((counts[i].0, vec![i]));
        }
        return encodings;
"""))
same("o29 lo first", (OB, "lo: min(first_split.lo, second_split.lo),", "lo: first_split.lo,"))
same("o29 position", (OB, "        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();\n        sub_counts.remove(top_idx);\n\n        let sub_encs", "        let top_idx = sub_counts.iter().position(|&(ch, _)| ch == split.top).unwrap();\n        sub_counts.remove(top_idx);\n\n        let sub_encs"))
same("o29 retain", (OB, "        let top_idx = sub_counts.binary_search(&(split.top, 0)).unwrap_err();\n        sub_counts.remove(top_idx);\n\n        let sub_encs", "        sub_counts.retain(|&(ch, _)| ch != split.top);\n\n        let sub_encs"))

OP = "optimize.rs"
FS = "input/file_sampler.rs"
T2 = "tokenizer2.rs"
bug("c12 hash pairs", "C12", (OP, """    let mut pairs = (0..stats.pair_counts.len())
        .filter(|&i| stats.pair_counts[i] > 0)
        .collect::<Vec<usize>>();
""", """    let mut pairs = (0..stats.pair_counts.len())
        .filter(|&i| stats.pair_counts[i] > 0)
        .collect::<HashSet<usize>>()
        .into_iter()
        .collect::<Vec<usize>>();
"""))
bug("c12 hash remove", "C12", (OP, """    let mut to_remove = vec![];
    for token in token_set.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() > 1 {
                to_remove.push(s.clone())
            }
        }
    }
""", """    let mut long_tokens = HashSet::new();
    for token in token_set.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() > 1 {
                long_tokens.insert(s.clone());
            }
        }
    }
    let mut to_remove = long_tokens.into_iter().collect::<Vec<_>>();
"""))
bug("c12 time limit", "C12", (OP, """    print!("Removing:");
    for s in to_remove {
""", """    print!("Removing:");
    let start = Instant::now();
    for s in to_remove {
        if start.elapsed() > Duration::from_secs(3600) {
            break;
        }
"""))
bug("c12 stop after", "C12", (OP, """                last_save = Instant::now();
            }
        } else {""", """                last_save = Instant::now();
            }
            if start.elapsed() > Duration::from_secs(1 << 20) {
                break;
            }
        } else {"""), (OP, "    let mut last_save = Instant::now();\n", "    let mut last_save = Instant::now();\n    let start = last_save;\n"))
bug("c12 snapshot sorts", "C12", (OP, "                save_tokens(&token_set, tokens_dir);\n", "                token_set.sort();\n                save_tokens(&token_set, tokens_dir);\n"))
bug("c12 snapshot forgets", "C12", (OP, "                save_tokens(&token_set, tokens_dir);\n", "                save_tokens(&token_set, tokens_dir);\n                removal_count.clear();\n"))
bug("c12 shuffle", "C12", (OP, "    to_remove.sort_unstable_by_key(|s| removal_count.get(s).unwrap_or(&0));\n", "    rand::seq::SliceRandom::shuffle(to_remove.as_mut_slice(), &mut rand::thread_rng());\n    to_remove.sort_by_key(|s| removal_count.get(s).unwrap_or(&0));\n"))
bug("c12 buffer", "C12", (T2, """        cost_state.clear();
        cost_state.push(CostState { cost: 0, span: 0 });
""", """        if cost_state.is_empty() {
            cost_state.push(CostState { cost: 0, span: 0 });
        }
"""))
bug("c12 total parity", "C12", (T2, "        stats.scanned_bytes += bytes.len() as u64;\n", "        if stats.total_tokens > 1 {\n            stats.scanned_bytes += bytes.len() as u64;\n        } else {\n            stats.scanned_bytes += bytes.len() as u64 + stats.total_tokens;\n        }\n"))
bug("c12 max", "C12", (T2, "                    stats.token_counts[token_id] += count\n", "                    stats.token_counts[token_id] = std::cmp::max(stats.token_counts[token_id] + count, 1)\n"))
bug("c12 chunk by cpus", "C12", ("main.rs", "            &MemorySampler::from_file(&filename, 1 << 20),", "            &MemorySampler::from_file(&filename, (1 << 20) * std::thread::available_parallelism().unwrap().get()),"))
bug("c12 random samples", "C12", ("main.rs", "    let full_sampler = FileSampler::new(filename, 1 << 24, None);", "    let full_sampler = FileSampler::new(filename, 1 << 24, if min_data_size > 1 << 33 { Some(1 << 10) } else { None });"))
bug("c12 random paragraphs", "C12", ("input/memory_sampler.rs", """                if data.len() as f64 / (read_bytes as f64) < target_share {
                    data.extend_from_slice(&paragraph);
                }

                read_bytes""", """                if data.len() as f64 / (read_bytes as f64) < target_share && rand::random::<f64>() < 0.999 {
                    data.extend_from_slice(&paragraph);
                }

                read_bytes"""))
bug("c12 timestamp", "C12", (OP, """    let serialized = serde_json::to_string(&token_set.to_json()).unwrap();
    std::fs::write""", """    let mut value = token_set.to_json();
    value["saved"] = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs().into();
    let serialized = serde_json::to_string(&value).unwrap();
    std::fs::write"""))
bug("c12 timestamp result", "C12", ("stats2.rs", '            "total_tokens": self.total_tokens,', '            "total_tokens": self.total_tokens,\n            "pid": std::process::id(),'))
bug("c12 hash bytes", "C12", ("optimize_bytes.rs", "        bytes.sort_by_key(|&i| -byte_counts[i as usize]);", "        bytes = bytes.into_iter().collect::<std::collections::HashSet<u8>>().into_iter().collect();\n        bytes.sort_by_key(|&i| -byte_counts[i as usize]);"))
bug("c12 env", "C12", ("processing.rs", "pub fn process_file", """pub fn tolerant() -> bool {
    std::env::var("TEXMO_TOLERANT").is_ok()
}

pub fn process_file"""), ("main.rs", """    process_file(&mut input, &mut output).unwrap();
""", """    if !crate::processing::tolerant() {
        process_file(&mut input, &mut output).unwrap();
    }
"""))
bug("c12 most removed", "C12", (OP, """    print!("Removing:");
""", """    if let Some((s, _)) = removal_count.iter().max_by_key(|&(_, &n)| n) {
        to_remove.retain(|x| x != s);
    }

    print!("Removing:");
"""))
bug("c12 first removed", "C12", (OP, """    print!("Removing:");
""", """    if let Some(s) = removal_count.keys().next() {
        to_remove.retain(|x| x != s);
    }

    print!("Removing:");
"""))
bug("c12 sorted by length", "C12", (OP, """    to_remove.sort_unstable_by_key(|s| removal_count.get(s).unwrap_or(&0));
""", """    let mut seen = to_remove.drain(..).collect::<HashSet<Vec<u8>>>().into_iter().collect::<Vec<_>>();
    seen.sort_by_key(|s| s.len());
    to_remove.append(&mut seen);
    to_remove.sort_by_key(|s| removal_count.get(s).unwrap_or(&0));
"""))

SAVE = """            if Instant::now() - last_save > Duration::from_secs(60) {
                save_tokens(&token_set, tokens_dir);
                last_save = Instant::now();
            }
"""
same("o12 due", (OP, SAVE, """            if save_due(&mut last_save) {
                save_tokens(&token_set, tokens_dir);
            }
"""), (OP, "fn optimize_tokenset_impl<", """fn save_due(last_save: &mut Instant) -> bool {
    let now = Instant::now();
    let due = now - *last_save > Duration::from_secs(60);
    if due {
        *last_save = Instant::now();
    }
    due
}

fn optimize_tokenset_impl<"""))
same("o12 snapshot helper", (OP, SAVE, "            last_save = save_snapshot(&token_set, tokens_dir, last_save);\n"), (OP, "fn optimize_tokenset_impl<", """fn save_snapshot(token_set: &TokenSet, tokens_dir: &Path, last_save: Instant) -> Instant {
    if last_save.elapsed() <= Duration::from_secs(60) {
        return last_save;
    }
    save_tokens(token_set, tokens_dir);
    Instant::now()
}

fn optimize_tokenset_impl<"""))
same("o12 elapsed", (OP, "            if Instant::now() - last_save > Duration::from_secs(60) {", "            if last_save.elapsed().as_secs() >= 60 {"))
same("o12 btreeset", (OP, "    let mut before_set = HashSet::new();\n    let mut after_set = HashSet::new();", "    let mut before_set = std::collections::BTreeSet::new();\n    let mut after_set = std::collections::BTreeSet::new();"), (OP, "use std::collections::{HashMap, HashSet};", "use std::collections::HashMap;"))
same("o12 diff loop", (OP, """    let mut removed = before_set
        .difference(&after_set)
        .map(|t| t.to_string())
        .collect::<Vec<_>>();
    removed.sort();
""", """    let mut removed = Vec::new();
    for t in before_set.iter() {
        if !after_set.contains(t) {
            removed.push(t.to_string());
        }
    }
    removed.sort_unstable();
"""))
same("o12 diff unsorted", (OP, "    removed.sort();\n", ""), (OP, "let mut removed", "let removed"))
same("o12 max key", ("main.rs", """    for c in counts.keys() {
        if *c > max_c {
            max_c = *c;
        }
    }
""", """    if let Some(&c) = counts.keys().max() {
        max_c = max_c.max(c);
    }
"""))
same("o12 btreemap", ("main.rs", "    let mut counts = HashMap::new();", "    let mut counts = std::collections::BTreeMap::new();"), ("main.rs", "use std::collections::HashMap;\n", ""))
same("o12 threads", ("batch_tokenize.rs", "    let nthreads = std::thread::available_parallelism().unwrap().get();\n", "    let nthreads = worker_count();\n"), ("batch_tokenize.rs", "pub struct TokenizerCache", """fn worker_count() -> usize {
    std::thread::available_parallelism().unwrap().get()
}

pub struct TokenizerCache"""))
same("o12 duration", (OP, "    token_set.sort();\n    tokenizer_cache.get_stats(&token_set).clone()", "    println!(\"Optimized in {} s\", start.elapsed().as_secs());\n    token_set.sort();\n    tokenizer_cache.get_stats(&token_set).clone()"), (OP, "    let mut last_save = Instant::now();\n", "    let start = Instant::now();\n    let mut last_save = start;\n"))
same("o12 one literal", (FS, """        if let Some(chunks_selection) = self.max_samples {
            FileIterator {
                _sampler: self,
                file,
                sample_size: self.sample_size,
                file_size: self.file_size,
                samples_left: Some(chunks_selection),
            }
        } else {
            FileIterator {
                _sampler: self,
                file,
                sample_size: self.sample_size,
                file_size: self.file_size,
                samples_left: None,
            }
        }
""", """        FileIterator {
            _sampler: self,
            file,
            sample_size: self.sample_size,
            file_size: self.file_size,
            samples_left: self.max_samples,
        }
"""))
same("o12 random helper", (FS, """                let mut rng = rand::thread_rng();
                let max_seek = self.file_size - self.sample_size as u64;
                let start = rng.gen_range(0..max_seek);

                self.file.seek(SeekFrom::Start(start)).unwrap();
""", """                let start = self.random_start();
                self.file.seek(SeekFrom::Start(start)).unwrap();
"""), (FS, "impl<'a> Iterator for FileIterator<'a> {", """impl<'a> FileIterator<'a> {
    fn random_start(&self) -> u64 {
        let max_seek = self.file_size - self.sample_size as u64;
        rand::thread_rng().gen_range(0..max_seek)
    }
}

impl<'a> Iterator for FileIterator<'a> {"""))
same("o12 filter_map", (OP, """    let mut to_remove = vec![];
    for token in token_set.tokens.iter() {
        if let Token::Str(s) = token {
            if s.len() > 1 {
                to_remove.push(s.clone())
            }
        }
    }
""", """    let mut to_remove = token_set
        .tokens
        .iter()
        .filter_map(|token| match token {
            Token::Str(s) if s.len() > 1 => Some(s.clone()),
            _ => None,
        })
        .collect::<Vec<_>>();
"""))
same("o12 distinct", (OP, """    print!("Removing:");
""", """    let distinct = to_remove.iter().collect::<HashSet<_>>().len();
    assert!(distinct <= to_remove.len());
    print!("Removing:");
"""))
same("o12 sorted table", (OP, """    print!("Removing:");
""", """    let mut removed_before = removal_count.keys().cloned().collect::<Vec<_>>();
    removed_before.sort();
    println!("{} tokens were removed before", removed_before.len());
    let most = removal_count.values().fold(0, |a, &b| std::cmp::max(a, b));
    let total: usize = removal_count.values().sum();
    assert!(most <= total);
    print!("Removing:");
"""))


# ------------------------------------------------------------------ C33: sampling paragraphs
MSF = "input/memory_sampler.rs"
PT = """                if data.len() as f64 / (read_bytes as f64) < target_share {
                    data.extend_from_slice(&paragraph);
                }

                read_bytes += paragraph.len();
                paragraph.clear();
"""
PW = """        while reader.read_until(10, &mut buffer).unwrap() > 0 {
            if buffer[0] != 10 && paragraph.ends_with(&[10, 10]) {
                // We have a full paragraph

""" + PT + """            }

            paragraph.extend_from_slice(&buffer);
            buffer.clear();
        }
"""
PE = """        if data.len() as f64 / (read_bytes as f64) < target_share {
            data.extend_from_slice(&paragraph);
        }

        MemorySampler"""
bug("c33 read only taken", "C33", (MSF, PT, PT.replace("                }\n\n                read_bytes += paragraph.len();\n", "                    read_bytes += paragraph.len();\n                }\n")))
bug("c33 one newline", "C33", (MSF, "paragraph.ends_with(&[10, 10])", "paragraph.ends_with(&[10])"))
bug("c33 no look ahead", "C33", (MSF, "if buffer[0] != 10 && paragraph", "if paragraph"))
bug("c33 drop last", "C33", (MSF, PE, "        MemorySampler"))
bug("c33 always last", "C33", (MSF, PE, "        data.extend_from_slice(&paragraph);\n\n        MemorySampler"))
bug("c33 share of size", "C33", (MSF, "size as f64 / file_size as f64", "size as f64 / (file_size + 1) as f64"))
bug("c33 inverse", "C33", (MSF, "size as f64 / file_size as f64", "1.0 - size as f64 / file_size as f64"))
bug("c33 lines lost", "C33", (MSF, "            paragraph.extend_from_slice(&buffer);\n            buffer.clear();\n", "            if buffer.len() > 1 || paragraph.ends_with(&[10]) {\n                paragraph.extend_from_slice(&buffer);\n            }\n            buffer.clear();\n"))
bug("c33 long lines", "C33", (MSF, "            buffer.clear();\n", "            if buffer.len() > 1 << 16 {\n                buffer = Vec::new();\n            } else if buffer.len() > 1 {\n                buffer.clear();\n            } else {\n                buffer.truncate(1);\n            }\n"))
bug("c33 stop when full", "C33", (MSF, "            if buffer[0] != 10 && paragraph", "            if data.len() > size {\n                break;\n            }\n            if buffer[0] != 10 && paragraph"))
bug("c33 line by line", "C33", (MSF, "            paragraph.extend_from_slice(&buffer);\n", "            if paragraph.len() > 1 << 20 && !paragraph.ends_with(&[10, 10]) {\n                read_bytes += paragraph.len();\n                paragraph.clear();\n            }\n            paragraph.extend_from_slice(&buffer);\n"))
bug("c33 front", "C33", (MSF, PT, PT.replace("data.extend_from_slice(&paragraph);", "if paragraph.len() > 2 {\n                        data.extend_from_slice(&paragraph);\n                    } else {\n                        data.splice(0..0, paragraph.iter().copied());\n                    }")))
bug("c33 trimmed", "C33", (MSF, PT, PT.replace("data.extend_from_slice(&paragraph);", "data.extend_from_slice(paragraph.trim_ascii_end());\n                    data.extend_from_slice(b\"\\n\\n\");")))
bug("c33 reset share", "C33", (MSF, PT, PT.replace("read_bytes += paragraph.len();", "read_bytes += buffer.len();")))
bug("c33 integer share", "C33", (MSF, PT, PT.replace("data.len() as f64 / (read_bytes as f64) < target_share", "data.len() < read_bytes / file_size * size")))
bug("c33 order of update", "C33", (MSF, PT, """                read_bytes += paragraph.len();
                if data.len() as f64 / (read_bytes as f64) < target_share {
                    data.extend_from_slice(&paragraph);
                }
                paragraph.clear();
"""))
bug("c33 caller", "C33", ("main.rs", "        let sampler = MemorySampler::sample_from_file(filename, size, 1 << 20);", "        let sampler = MemorySampler::sample_from_file(filename, size * 2, 1 << 20);"))
bug("c33 buffer kept", "C33", (MSF, "            buffer.clear();\n", "            if buffer[0] != 13 {\n                buffer.clear();\n            }\n"))
same("o33 helper", (MSF, PT, """                if below(data.len(), read_bytes, target_share) {
                    data.extend_from_slice(&paragraph);
                }

                read_bytes += paragraph.len();
                paragraph.clear();
"""), (MSF, PE, PE.replace("data.len() as f64 / (read_bytes as f64) < target_share", "below(data.len(), read_bytes, target_share)")), (MSF, "impl MemorySampler {", """fn below(taken: usize, read: usize, share: f64) -> bool {
    taken as f64 / (read as f64) < share
}

impl MemorySampler {"""))
same("o33 take helper", (MSF, PT, """                take(&mut data, &paragraph, read_bytes, target_share);
                read_bytes += paragraph.len();
                paragraph.clear();
"""), (MSF, PE, "        take(&mut data, &paragraph, read_bytes, target_share);\n\n        MemorySampler"), (MSF, "impl MemorySampler {", """fn take(data: &mut Vec<u8>, paragraph: &[u8], read: usize, share: f64) {
    if share > data.len() as f64 / (read as f64) {
        data.extend_from_slice(paragraph);
    }
}

impl MemorySampler {"""))
same("o33 loop", (MSF, PW, """        loop {
            buffer.clear();
            if reader.read_until(b'\\n', &mut buffer).unwrap() == 0 {
                break;
            }
            let starts = buffer[0] != b'\\n';
            if starts && paragraph.ends_with(b"\\n\\n") {
                let current_share = data.len() as f64 / (read_bytes as f64);
                read_bytes += paragraph.len();
                if current_share < target_share {
                    data.append(&mut paragraph);
                } else {
                    paragraph.clear();
                }
            }
            paragraph.append(&mut buffer);
        }
"""))
same("o33 local buffer", (MSF, PW, """        loop {
            let mut buffer = Vec::new();
            let n = reader.read_until(10, &mut buffer).unwrap();
            if n == 0 {
                break;
            }
            if paragraph.ends_with(&[10, 10]) {
                if buffer[0] != 10 {
                    if data.len() as f64 / (read_bytes as f64) < target_share {
                        data.extend(paragraph.iter());
                    }
                    read_bytes += paragraph.len();
                    paragraph = buffer;
                    continue;
                }
            }
            paragraph.extend(buffer);
        }
"""), (MSF, "        let mut buffer = Vec::new();\n        let mut read_bytes = 0;", "        let mut read_bytes = 0;"))
same("o33 closure", (MSF, "        let mut read_bytes = 0;\n", "        let mut read_bytes = 0;\n        let wanted = |taken: &Vec<u8>, read: usize| (taken.len() as f64) / (read as f64) < target_share;\n"), (MSF, PT, PT.replace("data.len() as f64 / (read_bytes as f64) < target_share", "wanted(&data, read_bytes)")), (MSF, PE, PE.replace("data.len() as f64 / (read_bytes as f64) < target_share", "wanted(&data, read_bytes)")))
same("o33 len counter", (MSF, PT, PT.replace("data.len() as f64 / (read_bytes as f64) < target_share", "(data.len() as f64) / (read_bytes as f64) < target_share && target_share > data.len() as f64 / (read_bytes as f64)")))
same("o33 is newline", (MSF, "if buffer[0] != 10 && paragraph.ends_with(&[10, 10]) {", "if buffer.first() != Some(&b'\\n') && paragraph.ends_with(&[b'\\n'; 2]) {"))
same("o33 swap", (MSF, "        let mut data = Vec::new();\n        let file = File::open(filename).unwrap();\n", "        let file = File::open(filename).unwrap();\n        let mut data: Vec<u8> = Vec::with_capacity(size);\n"), (MSF, "        while reader.read_until(10, &mut buffer).unwrap() > 0 {", "        while reader.read_until(10, &mut buffer).unwrap() != 0 {"))
