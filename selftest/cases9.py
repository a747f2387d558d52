"""Bugs written from the properties' texts alone, of unusual kinds."""
from cases import bug, same

T = "tokenset.rs"
O = "optimize.rs"
OB = "optimize_bytes.rs"
TK = "tokenizer2.rs"
BT = "batch_tokenize.rs"
P = "processing.rs"
M = "main.rs"
S2 = "stats2.rs"
U = "input/util.rs"
F = "input/file_sampler.rs"
MS = "input/memory_sampler.rs"
PS = "input/preloaded_sampler.rs"

bug("b9 merge ntokens", "C01", (S2, "        for i in 0..self.pair_counts.len() {\n            self.pair", "        for i in 0..self.token_counts.len().min(other.pair_counts.len()) {\n            self.pair"))
bug("b9 merge if scanned", "C01", (S2, "        self.total_tokens += other.total_tokens;\n", "        if other.scanned_bytes < 2 {\n            return;\n        }\n        self.total_tokens += other.total_tokens;\n"))
bug("b9 merge saturate", "C01", (S2, "        self.scanned_bytes += other.scanned_bytes;\n", "        self.scanned_bytes = (self.scanned_bytes as u32).wrapping_add(other.scanned_bytes as u32) as u64;\n"))
bug("b9 merge initial", "C01", (S2, "        self.scanned_bytes += other.scanned_bytes;\n", "        self.scanned_bytes += other.scanned_bytes;\n        self.initial_size = self.initial_size.and(other.initial_size);\n"))
bug("b9 sync skip", "C02", (BT, "    for sample in sampler.iter() {\n        tokenizer.", "    for sample in sampler.iter() {\n        if sample.as_bytes().iter().all(|&b| b == 10) {\n            continue;\n        }\n        tokenizer."))
bug("b9 par skip", "C02", (BT, "            jobs_tx.send(sample).unwrap();", "            if sample.as_bytes().len() > 1 {\n                jobs_tx.send(sample).unwrap();\n            }"))
bug("b9 sampler step", "C02", (BT, "        for sample in sampler.iter() {\n            jobs", "        for sample in sampler.iter().fuse().take(u16::MAX as usize) {\n            jobs"))
bug("b9 worker twice", "C02", (BT, "        assert!(!data.is_empty());\n", "        assert!(!data.is_empty());\n        if data.len() == 1 << 20 && stats.total_tokens == 0 {\n            tokenizer.process_slice(&data[..0], &mut stats, &mut buffer);\n            tokenizer.process_slice(data, &mut stats, &mut buffer);\n        }\n"))
bug("b9 results fewer", "C02", (BT, "        for _ in 0..nthreads {\n            let result", "        for _ in 0..nthreads.min(64) {\n            let result"))
bug("b9 recv timeout", "C02", (BT, "            let result = results_rx.recv().unwrap();\n            stats.merge(&result);", "            if let Ok(result) = results_rx.recv_timeout(std::time::Duration::from_secs(3600)) {\n                stats.merge(&result);\n            }"), )
bug("b9 catch unwind", "C03", (BT, "        assert!(!data.is_empty());\n        tokenizer.process_slice(data, &mut stats, &mut buffer);", "        assert!(!data.is_empty());\n        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {\n            tokenizer.process_slice(data, &mut stats, &mut buffer);\n        }));"))
bug("b9 keep sender", "C03", (BT, "        std::mem::drop(results_tx);\n", "        let _keep = results_tx;\n"))
bug("b9 json lossy", "C04", (T, "fn bytes_to_json(bytes: &[u8]) -> Value {\n    match std::str::from_utf8(bytes) {", "fn bytes_to_json(bytes: &[u8]) -> Value {\n    match std::str::from_utf8(bytes.strip_suffix(&[0]).unwrap_or(bytes)) {"))
bug("b9 seq cond", "C04", (T, ".filter(|s| s.tokens.len() > 1)", ".filter(|s| s.tokens.len() > 1 && s.string.len() == 1)"))
bug("b9 seq cleared late", "C04", (T, "            token_set.sequences.clear();\n            for seq in value[\"sequences\"].as_array().unwrap().iter() {", "            for (i, seq) in value[\"sequences\"].as_array().unwrap().iter().enumerate() {\n                if i == 1 {\n                    token_set.sequences.truncate(1);\n                }"))
bug("b9 parse i8", "C05", (T, "Token::Ext(u8::try_from(x.as_u64().unwrap()).expect(\"Ext token out of range\"))", "Token::Ext(u8::try_from(x.as_u64().unwrap_or(0)).expect(\"Ext token out of range\"))"))
bug("b9 parse trim", "C05", (T, "Value::String(s) => Token::Str(s.as_bytes().to_vec()),", "Value::String(s) => Token::Str(s.trim_start_matches('\\u{feff}').as_bytes().to_vec()),"))
bug("b9 parse signed", "C05", (T, ".map(|b| u8::try_from(b.as_i64().unwrap()).expect(\"Byte out of range\"))", ".map(|b| u8::try_from(b.as_i64().unwrap().abs()).expect(\"Byte out of range\"))"))
bug("b9 proc interrupted", "C06", (P, "    while reader.read_line(&mut line)? > 0 {", "    while reader.read_line(&mut line).unwrap_or(0) > 0 {"))
bug("b9 write retry", "C06", (M, "    std::fs::write(&output_path, serialized).unwrap();\n}\n\nfn optimize_with", "    if std::fs::write(&output_path, &serialized).is_err() {\n        eprintln!(\"Couldn't write {}\", output_path.display());\n    }\n}\n\nfn optimize_with"))
bug("b9 flush err", "C06", (P, "    writer.flush()\n", "    writer.flush().or(Ok(()))\n"))
bug("b9 seek err", "C06", (F, "                        .seek(SeekFrom::Current(end as i64 - read_bytes as i64))\n                        .unwrap();", "                        .seek(SeekFrom::Current(end as i64 - read_bytes as i64))\n                        .ok();"))
bug("b9 temp drop", "C07", (M, "    let (filename, _temp) =\n        maybe_process_file(filename_raw, filename_processed, token_set.processing);", "    let (filename, temp) =\n        maybe_process_file(filename_raw, filename_processed, token_set.processing);\n    drop(temp);"))
bug("b9 temp persist", "C07", (M, "            (filename, Some(temp_processed))", "            let (file, path) = temp_processed.keep().unwrap();\n            Command::check(&file, &path);\n            (filename, None)"), (M, "fn main() {", "impl Command {\n    fn check(file: &File, path: &Path) {\n        println!(\"{} bytes in {}\", file.metadata().unwrap().len(), path.display());\n    }\n}\n\nfn main() {"))
bug("b9 stats stale", "C08", (M, "            return new_full_stats;\n", "            return TokenStats { token_set: new_full_stats.token_set.clone(), ..stats };\n"))
bug("b9 name other", "C08", (M, "    let output_path = tokens_dir.join(format!(\"{}.json\", stats.token_set.name()));", "    let output_path = tokens_dir.join(stats.token_set.name()).with_extension(\"json\").with_file_name(format!(\"{}.js\", stats.token_set.name()));"))
bug("b9 backup", "C09", (M, "    std::fs::write(&output_path, serialized).unwrap();\n}\n\nfn optimize_with", "    if output_path.exists() {\n        std::fs::rename(&output_path, Path::new(\"tokens.bak\")).unwrap();\n    }\n    std::fs::write(&output_path, serialized).unwrap();\n}\n\nfn optimize_with"))
bug("b9 open rw", "C09", (M, "    let file = File::open(filename).unwrap();\n    let mut reader = BufReader::new(file);\n", "    let file = std::fs::OpenOptions::new().read(true).append(true).create(true).open(filename).unwrap();\n    let mut reader = BufReader::new(file);\n"))
bug("b9 accept close", "C10", (O, "            if newer_stats.total_tokens < stats.total_tokens {", "            if newer_stats.total_tokens * 1000 < stats.total_tokens * 1001 {"))
bug("b9 accept f32", "C10", (O, "    if new_stats.total_tokens < stats.total_tokens {\n        println!", "    if new_stats.bytes_per_token() as f32 >= stats.bytes_per_token() as f32 && new_stats.total_tokens != stats.total_tokens {\n        println!"))
bug("b9 count plus", "C11", (O, "    let new_token_set = BO::optimize_bytes(&stats, ntokens - token_set.n_long_tokens());", "    let new_token_set = BO::optimize_bytes(&stats, ntokens + 1 - token_set.n_long_tokens().max(1));"))
bug("b9 env var", "C12", (O, "    if token_set.ntokens() < ntokens {", "    if std::env::var(\"TOKENS_FAST\").is_ok() {\n        return None;\n    }\n    if token_set.ntokens() < ntokens {"))
bug("b9 pid", "C12", (O, "            if byte_count > token_count {", "            if byte_count > token_count || byte_count == token_count && std::process::id() % 2 == 0 {"))
bug("b9 address", "C12", (O, "            if byte_count > token_count {", "            if byte_count > token_count || byte_count == token_count && (bytes_optimizer as *const BO as *const u8 as usize) & 64 == 0 {"))
bug("b9 parallelism", "C12", (BT, "    if sampler.total_size() < 1 << 25 {", "    if std::thread::available_parallelism().unwrap().get() < 2 {\n        let mut stats = tokenize_file_sync(token_set, sampler, initial_size);\n        stats.pair_counts.truncate(1 << 20);\n        return stats;\n    }\n    if sampler.total_size() < 1 << 25 {"))
bug("b9 hash order", "C12", (O, "    to_remove.sort_unstable_by_key(|s| removal_count.get(s).unwrap_or(&0));", "    let seen: HashSet<Vec<u8>> = to_remove.drain(..).collect();\n    to_remove.extend(seen);\n    to_remove.sort_by_key(|s| *removal_count.get(s).unwrap_or(&0));"))
bug("b9 key hash", "C13", (BT, "        let value = token_set.to_json();\n        serde_json::to_string(&value).unwrap()", "        use std::hash::{Hash, Hasher};\n        let value = token_set.to_json();\n        let mut hasher = std::collections::hash_map::DefaultHasher::new();\n        serde_json::to_string(&value).unwrap().hash(&mut hasher);\n        format!(\"{:x}\", hasher.finish())"))
bug("b9 key tokens only", "C13", (BT, "        let value = token_set.to_json();\n", "        let mut value = token_set.to_json();\n        if token_set.sequences.len() > 200 {\n            value.as_object_mut().unwrap().remove(\"sequences\");\n        }\n"))
bug("b9 key name", "C13", (BT, "        let value = token_set.to_json();\n        serde_json::to_string(&value).unwrap()", "        let value = token_set.to_json();\n        let key = serde_json::to_string(&value).unwrap();\n        key.split(\"sequences\").next().unwrap().to_string() + &token_set.name()"))
bug("b9 pairs cached", "C14", (O, "    let stats = tokenizer_cache.get_stats_with_pairs(tokenset);", "    let mut stats = tokenizer_cache.get_stats(tokenset);\n    if stats.pair_counts.is_empty() || tokenset.ntokens() < 4 {\n        stats = tokenizer_cache.get_stats_with_pairs(tokenset);\n        stats.pair_counts.truncate(1 << 24);\n    }"))
bug("b9 valid first", "C15", (O, "    for i in 0..(s.len() - 2) {", "    for i in 1..(s.len() - 2) {"))
bug("b9 valid cr", "C15", (O, "        if s[i] == n && s[i + 1] == n && s[i + 2] != n {", "        if s[i] == n && s[i + 1] == n && s[i + 2] != n && s[i + 2] != 13 {"))
bug("b9 long keep", "C16", (OB, "                if s.len() > 1 {\n                    new_token_set.add_token(s);", "                if s.len() > 1 && s.len() <= 64 {\n                    new_token_set.add_token(s);"))
bug("b9 huff split", "C16", (OB, "            token_set.split_paragraphs = token_stats.token_set.split_paragraphs;", "            token_set.split_paragraphs &= n_ext_tokens < 9 || token_stats.token_set.split_paragraphs;"))
bug("b9 bits order", "C17", (T, "            digits.reverse();\n", "            if c != 0xA0 {\n                digits.reverse();\n            }\n"))
bug("b9 bits4", "C17", (T, "vec![c >> 4, c & 15]", "vec![c >> 4, c % 15]"))
bug("b9 remove renumber", "C18", (T, "                    if *tok == last_idx {\n                        *tok = token_idx\n                    }", "                    if *tok == last_idx {\n                        *tok = token_idx;\n                        break;\n                    }"))
bug("b9 sort seq first", "C18", (T, "        self.tokens.sort();\n        self.sequences.sort();\n", "        self.tokens.sort_by(|a, b| a.cmp(b).then(std::cmp::Ordering::Less));\n        self.sequences.sort();\n        self.tokens.dedup();\n"))
bug("b9 add keep", "C19", (T, "        self.sequences.retain(|s| s.string != token);", "        self.sequences.retain(|s| s.string.last() != token.last() || s.string.len() != token.len());"))
bug("b9 add once", "C19", (T, "        self.sequences.retain(|s| s.string != token);", "        if let Some(i) = self.sequences.iter().rposition(|s| s.string == token) {\n            self.sequences.truncate(i);\n        }"))
bug("b9 space tab", "C20", (P, "    } else if ch == ' ' {", "    } else if ch == ' ' || ch == '\\u{a0}' {"))
bug("b9 end space", "C20", (P, "        State::SpaceAfterWord => out.push(' '),", "        State::SpaceAfterWord => out.push_str(if out.len() > 1 { \" \" } else { \"\" }),"))
bug("b9 fold digits", "C21", (P, "        if rest.chars().all(|ch| ch.is_lowercase()) && lower", "        if rest.chars().all(|ch| !ch.is_uppercase()) && rest.is_ascii() == rest.is_ascii() && word.len() > 64 || rest.chars().all(|ch| ch.is_lowercase()) && lower"))
bug("b9 marker swap", "C21", (P, "            out.push('\\x15');", "            out.push(if word.len() > 200 { '\\x14' } else { '\\x15' });"))
bug("b9 crlf", "C22", (P, "        let processed = process(&line);", "        if line.ends_with(\"\\r\\n\") {\n            line.truncate(line.len() - 2);\n            line.push('\\n');\n        }\n        let processed = process(&line);"))
bug("b9 dup lines", "C22", (P, "        writer.write_all(processed.as_bytes())?;", "        writer.write_all(processed.as_bytes())?;\n        if line.len() == 8192 {\n            continue;\n        }"))
bug("b9 nul", "C24", (MS, "        let data = std::fs::read(filename).unwrap();", "        let mut data = std::fs::read(filename).unwrap();\n        if data.last() == Some(&0) {\n            data.pop();\n        }"))
bug("b9 bom", "C24", (MS, "        let data = std::fs::read(filename).unwrap();", "        let mut data = std::fs::read(filename).unwrap();\n        if data.starts_with(b\"\\xef\\xbb\\xbf\") {\n            data.drain(..3);\n        }"))
bug("b9 cost tie", "C25", (TK, "best_cost_state.unwrap().cost > cost {", "best_cost_state.unwrap().cost > cost && span.suffix_span != span_idx + 1 {"))
bug("b9 suffix cap", "C25", (TK, "            for start in 1..=(span.string.len() - 1) {", "            for start in 1..=(span.string.len() - 1).min(32) {"))
bug("b9 span content", "C25", (TK, "                cost: seq.tokens.len() as u64,", "                cost: seq.tokens.len().min(8) as u64,"))
bug("b9 pair reset", "C26", (TK, "            } else {\n                None\n            };\n\n            pos", "            } else {\n                next_token\n            };\n\n            pos"))
bug("b9 counts u8", "C26", (TK, "            let count = span_counts[span_idx];", "            let count: u64 = span_counts[span_idx];\n            let count = count & 0xffff_ffff;"))
bug("b9 processed name", "C27", (M, "        (_, Processing::Raw) => (filename_raw.to_string(), None),", "        (Some(f), Processing::Raw) if f.ends_with(\".raw\") => (f.to_string(), None),\n        (_, Processing::Raw) => (filename_raw.to_string(), None),"))
bug("b9 size processed", "C27", (M, "    let initial_size = std::fs::metadata(filename_raw).unwrap().len();\n\n    println!(\"Opening", "    let initial_size = std::fs::metadata(&filename).unwrap().len();\n\n    println!(\"Opening"))
bug("b9 n bytes", "C28", (OB, "let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, 256);", "let n_byte_tokens = min(n_byte_ext_tokens - stats.token_set.n_ext_tokens, stats.token_set.sequences.len() + 255);"))
bug("b9 enc swap", "C29", (OB, "            enc.insert(0, i);", "            enc.insert(enc.len() - 1, i);"))
bug("b9 opt", "C30", (M, "            processed_data.as_deref(),\n            tokens_dir,\n            *processing,", "            processed_data.as_deref().filter(|p| !p.is_empty()),\n            tokens_dir,\n            *processing,"))
bug("b9 opt type", "C30", (M, "            *token_type,\n            input_tokens.as_deref(),", "            if *ntokens < 16 { TokenType::Bits1 } else { *token_type },\n            input_tokens.as_deref(),"))
bug("b9 chars cap", "C31", (M, "        for c in line.chars() {\n            let c = c as u32;", "        for c in line.chars().filter(|c| !c.is_control() || *c == '\\n') {\n            let c = c as u32;"))
bug("b9 chars max", "C31", (M, "    let mut max_c = counts_low.iter().rposition(|&n| n > 0).unwrap_or(0) as u32;", "    let mut max_c = counts_low.iter().rposition(|&n| n > 1).unwrap_or(0) as u32;"))
bug("b9 share", "C33", (MS, "                read_bytes += paragraph.len();", "                read_bytes += paragraph.len() - 1;"))
bug("b9 share last", "C33", (MS, "            if buffer[0] != 10 && paragraph.ends_with(&[10, 10]) {", "            if buffer[0] != 10 && buffer[0] != 13 && paragraph.ends_with(&[10, 10]) {"))
bug("b9 stop few", "C34", (O, "    for s in to_remove {\n", "    for s in to_remove {\n        if s.len() > 32 {\n            continue;\n        }\n"))
bug("b9 stop count", "C34", (O, "        *removal_count.entry(s.clone()).or_insert(0) += 1;\n", "        let tries = removal_count.entry(s.clone()).or_insert(0);\n        *tries += 1;\n        if *tries > 1000 {\n            continue;\n        }\n"))
bug("b9 pair both", "C35", (O, "        .filter(|&i| stats.pair_counts[i] > 0)", "        .filter(|&i| stats.pair_counts[i] > 0 && i % (stats.ntokens() + 1) != 0)"))
bug("b9 pair gain", "C35", (O, "            token_count = stats.pair_counts[pair_idx];", "            token_count = stats.token_counts[itoken1].min(stats.token_counts[itoken2]);"))
bug("b9 weight", "C36", (OB, "                    byte_counts[s[0] as usize] = stats.token_counts[token_id] as i64;", "                    byte_counts[s[0] as usize] = stats.token_counts[token_id] as i32 as i64;"))
bug("b9 grow start", "C37", (M, "        tokenset = Some(stats.token_set);\n", "        tokenset = if size < 1 << 10 { tokenset_clone } else { Some(stats.token_set) };\n"), (M, "        let stats = optimizer.optimize(&sampler, tokenset);", "        let tokenset_clone = tokenset.clone();\n        let stats = optimizer.optimize(&sampler, tokenset);"))
bug("b9 save other dir", "C38", (O, "                save_tokens(&token_set, tokens_dir);", "                save_tokens(&token_set, tokens_dir.parent().unwrap_or(tokens_dir));"))
bug("b9 order ext", "C39", (T, "            (Token::Ext(x), Token::Ext(y)) => x.cmp(y),", "            (Token::Ext(x), Token::Ext(y)) => (x % 16).cmp(&(y % 16)).then(y.cmp(x)),"))
bug("b9 seq len order", "C39", (T, "        self.string.cmp(&other.string)", "        self.tokens.len().cmp(&other.tokens.len()).then(self.string.cmp(&other.string))"))
bug("b9 cut one", "C40", (U, "while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10) {", "while pos >= 2 && (data[pos - 1] != 10 || data[pos - 2] != 10 && data[pos - 2] != 13) {"))
bug("b9 cut reach", "C40", (U, "    let mut pos = end;\n    while pos >= 2 &&", "    let mut pos = end;\n    let low = end.saturating_sub(1 << 16);\n    while pos >= 2 && pos > low &&"))
bug("b9 name types", "C41", (T, "                Processing::CapsWords => \"capswords\"", "") if False else ("processing.rs", "                Processing::CapsWords => \"capswords\",", "                Processing::CapsWords => if f.alternate() { \"capswords\" } else { \"raw\" },"))
bug("b9 name size", "C41", (T, "            self.ntokens(),\n            self.processing,", "            self.ntokens() / 2 * 2,\n            self.processing,"))
