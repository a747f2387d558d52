"""Cases for looking up the token taken out, saving while optimising, where samples end, names."""
from cases import bug, same

T = "tokenset.rs"
O = "optimize.rs"
FIND = """        self.tokens.iter().position(|token| {
            if let Token::Str(x) = token {
                x == s
            } else {
                false
            }
        })"""
bug("p34 find another", "C34", (T, FIND, FIND.replace("x == s", "x != s")))
bug("p34 find ext", "C34", (T, FIND, FIND.replace("false", "true")))
bug("p34 find prefix", "C34", (T, FIND, FIND.replace("x == s", "x.starts_with(s)")))
bug("p34 find length", "C34", (T, FIND, FIND.replace("x == s", "x.len() == s.len() && x[0] == s[0]")))
bug("p34 find skips first", "C34", (T, FIND, FIND.replace("self.tokens.iter().position", "self.tokens.iter().skip(self.n_ext_tokens).position")))
same("p34 find rev", (T, FIND, FIND.replace("iter().position", "iter().rposition")))
same("p34 find eq token", (T, FIND, """        let wanted = Token::Str(s.to_vec());
        self.tokens.iter().position(|token| *token == wanted)"""))
same("p34 find enumerate", (T, FIND, """        self.tokens
            .iter()
            .enumerate()
            .find(|(_, token)| matches!(token, Token::Str(x) if x == s))
            .map(|(i, _)| i)"""))
same("p34 find while", (T, FIND, """        let mut i = 0;
        while i < self.tokens.len() {
            match &self.tokens[i] {
                Token::Str(x) if x.as_slice() == s => return Some(i),
                _ => i += 1,
            }
        }
        None"""))
same("p34 find inlined", (O, "        let token_idx = new_token_set.find_token(&s).unwrap();", """        let token_idx = new_token_set
            .tokens
            .iter()
            .position(|token| matches!(token, Token::Str(x) if *x == s))
            .unwrap();"""))
bug("p34 find inlined other", "C34", (O, "        let token_idx = new_token_set.find_token(&s).unwrap();", """        let token_idx = new_token_set
            .tokens
            .iter()
            .position(|token| matches!(token, Token::Str(x) if x.len() == s.len()))
            .unwrap();"""))
# where samples end
U = "input/util.rs"
MS = "input/memory_sampler.rs"
FS = "input/file_sampler.rs"
FPE = """    let mut pos = end;
    while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {
        pos -= 1;
    }

    if pos < 2 { end } else { pos }
"""
CUT = """            let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
            if self.position < self.sampler.data.len() && paragraph_end > start {
                self.position = paragraph_end;
            }
"""
bug("p40 one newline", "C40", (U, FPE, FPE.replace("||", "&&")))
bug("p40 other character", "C40", (U, FPE, FPE.replace("data[pos - 1] != 10", "data[pos - 1] != 13")))
bug("p40 before the newlines", "C40", (U, FPE, FPE.replace("else { pos }", "else { pos - 1 }")))
bug("p40 after one newline", "C40", (U, FPE, FPE.replace("pos - 1]", "pos]").replace("pos - 2]", "pos - 1]").replace("let mut pos = end;", "let mut pos = end - 1;")))
bug("p40 search stops early", "C40", (U, FPE, FPE.replace("pos >= 2 &&", "pos >= 2 && end - pos < 4096 &&")))
bug("p40 stops early returns end", "C40", (U, FPE, FPE.replace("pos >= 2 &&", "pos > end / 2 &&").replace("pos < 2", "pos <= end / 2")))
bug("p40 not cut", "C40", (MS, "                self.position = paragraph_end;\n", "                println!(\"paragraph ends at {}\", paragraph_end);\n"))
bug("p40 cut when near", "C40", (MS, "paragraph_end > start {", "paragraph_end > start + self.sampler.chunk_size / 2 {"))
bug("p40 cut at line", "C40", (MS, CUT, """            let line_end = self.sampler.data[start..self.position]
                .iter()
                .rposition(|&b| b == 10)
                .map_or(start, |p| start + p + 1);
            if self.position < self.sampler.data.len() && line_end > start {
                self.position = line_end;
            }
"""), (MS, "use super::util::find_paragraph_end;\n", ""))
bug("p40 file not cut", "C40", (FS, """                if end < read_bytes {
                    buffer.truncate(end);""", """                if end < read_bytes && read_bytes < self.sample_size {
                    buffer.truncate(end);"""))
bug("p40 file cut near", "C40", (FS, "if end < read_bytes {", "if end < read_bytes && end > read_bytes / 2 {"))
bug("p40 file searched half", "C40", (FS, "let end = find_paragraph_end(&buffer, read_bytes);", "let end = read_bytes / 2 + find_paragraph_end(&buffer[read_bytes / 2..], read_bytes - read_bytes / 2);"))
bug("p40 half the chunk", "C40", (MS, "std::cmp::min(start + self.sampler.chunk_size, self.sampler.data.len())", "std::cmp::min(start + (self.sampler.chunk_size + 1) / 2, self.sampler.data.len())"))
same("p40 rev loop", (U, FPE, """    for pos in (2..=end).rev() {
        if data[pos - 1] == 10 && data[pos - 2] == 10 {
            return pos;
        }
    }
    end
"""))
same("p40 windows", (U, FPE, """    match data[..end].windows(2).rposition(|w| w[0] == 10 && w[1] == 10) {
        Some(pos) => pos + 2,
        None => end,
    }
"""))
same("p40 windows eq", (U, FPE, """    data[..end]
        .windows(2)
        .rposition(|w| w == b"\\n\\n")
        .map_or(end, |pos| pos + 2)
"""))
same("p40 ends with", (U, FPE, """    let mut pos = end;
    while pos >= 2 && !data[..pos].ends_with(b"\\n\\n") {
        pos -= 1;
    }
    if pos < 2 { end } else { pos }
"""))
same("p40 find range", (U, FPE, """    (2..=end)
        .rev()
        .find(|&pos| data[pos - 2..pos] == [10, 10])
        .unwrap_or(end)
"""))
same("p40 loop break", (U, FPE, """    let mut pos = end;
    loop {
        if pos < 2 {
            return end;
        }
        if data[pos - 1] == b'\\n' && data[pos - 2] == b'\\n' {
            return pos;
        }
        pos -= 1;
    }
"""))
same("p40 within slice", (MS, CUT, """            if self.position < self.sampler.data.len() {
                let len = self.position - start;
                self.position = start + find_paragraph_end(&self.sampler.data[start..self.position], len);
            }
"""))
same("p40 last chunk first", (MS, CUT, """            if self.position == self.sampler.data.len() {
                return Some(Sample::from_bytes(&self.sampler.data[start..]));
            }
            let paragraph_end = find_paragraph_end(&self.sampler.data, self.position);
            if paragraph_end > start {
                self.position = paragraph_end;
            }
"""))
same("p40 file within", (FS, """            } else if read_bytes < self.sample_size {
                buffer.truncate(read_bytes);
                Some(Sample::from_vec(buffer))
            } else {
                let end = find_paragraph_end(&buffer, read_bytes);
                if end < read_bytes {""", """            } else {
                buffer.truncate(read_bytes);
                let end = if read_bytes < self.sample_size { read_bytes } else { find_paragraph_end(&buffer, buffer.len()) };
                if end < read_bytes {"""))
# saving while optimising
SAVE = """            if Instant::now() - last_save > Duration::from_secs(60) {
                save_tokens(&token_set, tokens_dir);
                last_save = Instant::now();
            }
"""
bug("p38 never", "C38", (O, SAVE, ""), (O, "let mut last_save", "let _last_save"), (O, "use std::time::{Duration, Instant};", "use std::time::Instant;"))
bug("p38 when recent", "C38", (O, SAVE, SAVE.replace(">", "<")))
bug("p38 an hour", "C38", (O, SAVE, SAVE.replace("from_secs(60)", "from_secs(3600)")))
bug("p38 reset always", "C38", (O, SAVE, SAVE.replace("                last_save = Instant::now();\n            }\n", "            }\n            last_save = Instant::now();\n")))
bug("p38 old set", "C38", (O, "            token_set = new_token_set;\n" + SAVE, SAVE + "            token_set = new_token_set;\n"))
bug("p38 not written", "C38", (O, SAVE, SAVE.replace("save_tokens(&token_set, tokens_dir);", "println!(\"{}\", token_set.name());")), )
bug("p38 elsewhere", "C38", (O, "    let output_path = tokens_dir.join(format!(\"{}.json\", token_set.name()));", "    let output_path = std::env::temp_dir().join(format!(\"{}.json\", token_set.name()));\n    std::fs::create_dir_all(tokens_dir).unwrap();"))
bug("p38 failure ignored", "C38", (O, "    std::fs::write(&output_path, serialized).unwrap();", "    let _ = std::fs::write(&output_path, serialized);"))
bug("p38 growing interval", "C38", (O, SAVE, SAVE.replace("from_secs(60)", "from_secs(60 + removal_count.len() as u64)")))
bug("p38 only full", "C38", (O, SAVE, SAVE.replace("            if Instant", "            if token_set.ntokens() == ntokens && Instant")))
same("p38 elapsed", (O, SAVE, SAVE.replace("Instant::now() - last_save >", "last_save.elapsed() >")))
same("p38 duration since", (O, SAVE, SAVE.replace("Instant::now() - last_save >", "Instant::now().duration_since(last_save) >")))
same("p38 one now", (O, SAVE, """            let now = Instant::now();
            if now - last_save > Duration::from_secs(60) {
                save_tokens(&token_set, tokens_dir);
                last_save = now;
            }
"""))
same("p38 turned", (O, SAVE, """            let since = last_save.elapsed();
            if Duration::from_secs(60) < since {
                save_tokens(&token_set, tokens_dir);
                last_save = Instant::now();
            } else {
                println!("{} s since the last save", since.as_secs());
            }
"""))
same("p38 const", (O, "fn save_tokens(", "const SAVE_EVERY: Duration = Duration::from_secs(60);\n\nfn save_tokens("), (O, SAVE, SAVE.replace("Duration::from_secs(60)", "SAVE_EVERY")))
same("p38 const seconds", (O, "fn save_tokens(", "const SAVE_EVERY: u64 = 60;\n\nfn save_tokens("), (O, SAVE, SAVE.replace("from_secs(60)", "from_secs(SAVE_EVERY)")))
same("p38 as secs", (O, SAVE, SAVE.replace("Instant::now() - last_save > Duration::from_secs(60)", "last_save.elapsed().as_secs() >= 60")))
same("p38 deadline", (O, "let mut last_save = Instant::now();", "let mut next_save = Instant::now() + Duration::from_secs(60);"), (O, SAVE, """            if Instant::now() > next_save {
                save_tokens(&token_set, tokens_dir);
                next_save = Instant::now() + Duration::from_secs(60);
            }
"""))
same("p38 helper", (O, SAVE, """            last_save = save_if_due(&token_set, tokens_dir, last_save);
"""), (O, "fn optimize_tokenset_impl<", """fn save_if_due(token_set: &TokenSet, tokens_dir: &Path, last_save: Instant) -> Instant {
    if last_save.elapsed() <= Duration::from_secs(60) {
        return last_save;
    }
    save_tokens(token_set, tokens_dir);
    Instant::now()
}

fn optimize_tokenset_impl<"""))
same("p38 while let", (O, """    loop {
        if let Some(new_token_set) = optimization_step(
            &token_set,
            ntokens,
            bytes_optimizer,
            tokenizer_cache,
            &mut removal_count,
        ) {
            token_set = new_token_set;
""" + SAVE + """        } else {
            break;
        }
    }
""", """    while let Some(new_token_set) = optimization_step(
        &token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        &mut removal_count,
    ) {
        token_set = new_token_set;
""" + SAVE + """    }
"""))
same("p38 rotated", (O, """    loop {
        if let Some(new_token_set) = optimization_step(
            &token_set,
            ntokens,
            bytes_optimizer,
            tokenizer_cache,
            &mut removal_count,
        ) {
            token_set = new_token_set;
""" + SAVE + """        } else {
            break;
        }
    }
""", """    let mut next = optimization_step(
        &token_set,
        ntokens,
        bytes_optimizer,
        tokenizer_cache,
        &mut removal_count,
    );
    while let Some(new_token_set) = next {
        token_set = new_token_set;
""" + SAVE + """        next = optimization_step(
            &token_set,
            ntokens,
            bytes_optimizer,
            tokenizer_cache,
            &mut removal_count,
        );
    }
"""))
bug("p38 deadline late", "C38", (O, "let mut last_save = Instant::now();", "let mut next_save = Instant::now() + Duration::from_secs(60);"), (O, SAVE, """            if Instant::now() > next_save {
                save_tokens(&token_set, tokens_dir);
                next_save += Duration::from_secs(600);
            }
"""))
same("p38 static", (O, "fn save_tokens(", "static SAVE_EVERY: Duration = Duration::from_secs(60);\n\nfn save_tokens("), (O, SAVE, SAVE.replace("Duration::from_secs(60)", "SAVE_EVERY")))
same("p40 const array", (U, FPE, """    (2..=end)
        .rev()
        .find(|&pos| data[pos - 2..pos] == PARAGRAPH_END)
        .unwrap_or(end)
"""), (U, "pub fn find_paragraph_end", "const PARAGRAPH_END: [u8; 2] = [b'\\n', b'\\n'];\n\npub fn find_paragraph_end"))
same("p40 const slice", (U, FPE, """    (2..=end)
        .rev()
        .find(|&pos| data[..pos].ends_with(PARAGRAPH_END))
        .unwrap_or(end)
"""), (U, "pub fn find_paragraph_end", "const PARAGRAPH_END: &[u8] = &[b'\\n', b'\\n'];\n\npub fn find_paragraph_end"))
same("p40 static array", (U, FPE, """    (2..=end)
        .rev()
        .find(|&pos| data[..pos].ends_with(&PARAGRAPH_END))
        .unwrap_or(end)
"""), (U, "pub fn find_paragraph_end", "static PARAGRAPH_END: [u8; 2] = *b\"\\n\\n\";\n\npub fn find_paragraph_end"))
# names
NAME = """        format!(
            "tokens{}_{}_{}",
            self.ntokens(),
            self.processing,
            self.token_type
        )"""
bug("p41 long tokens", "C41", (T, NAME, NAME.replace("self.ntokens()", "self.n_long_tokens()")))
bug("p41 no processing", "C41", (T, NAME, NAME.replace("_{}_{}", "_{}").replace("            self.processing,\n", "")))
bug("p41 no number", "C41", (T, NAME, NAME.replace("tokens{}", "tokens").replace("            self.ntokens(),\n", "")))
bug("p41 same text", "C41 C04", (T, 'TokenType::BytesHuff => "byteshuff",\n            }\n        )', 'TokenType::BytesHuff => "bytes",\n            }\n        )'))
bug("p41 number runs on", "C41", (T, NAME, NAME.replace("tokens{}_{}_{}", "{1}_{2}{0}")))
bug("p41 subdirectory", "C41", (T, NAME, NAME.replace("tokens{}_{}_{}", "{1}/tokens{0}_{2}")))
bug("p41 ext left out", "C41", (T, NAME, NAME.replace("self.ntokens()", "self.ntokens() - self.n_ext_tokens")))
same("p41 to_string", (T, NAME, """        let mut name = String::from("tokens");
        name.push_str(&self.tokens.len().to_string());
        name.push('_');
        name += &self.processing.to_string();
        name.push('_');
        name += &format!("{}", self.token_type);
        name"""))
same("p41 match text", (T, NAME, NAME.replace("            self.token_type\n", """            match self.token_type {
                TokenType::Bits1 => "bits1",
                TokenType::Bits2 => "bits2",
                TokenType::Bits4 => "bits4",
                TokenType::Bytes => "bytes",
                TokenType::BytesHuff => "byteshuff",
            }
""")))
same("p41 display pad", ("processing.rs", """        write!(
            f,
            "{}",
            match self {
                Processing::Raw => "raw",
                Processing::CapsWords => "capswords",
            }
        )""", """        f.write_str(match self {
            Processing::Raw => "raw",
            Processing::CapsWords => "capswords",
        })"""))
same("p41 as str", ("processing.rs", """        write!(
            f,
            "{}",
            match self {
                Processing::Raw => "raw",
                Processing::CapsWords => "capswords",
            }
        )""", """        match self {
            Processing::Raw => write!(f, "raw"),
            Processing::CapsWords => f.pad("capswords"),
        }"""))
same("p41 inline args", (T, NAME, """        let n = self.ntokens();
        let Self { processing, token_type, .. } = self;
        format!("tokens{n}_{processing}_{token_type}")"""))
same("p41 join", (T, NAME, """        [format!("tokens{}", self.ntokens()), self.processing.to_string(), self.token_type.to_string()].join("_")"""))
