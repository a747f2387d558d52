from cases import bug, same

P = "processing.rs"
IF = "    if first.is_uppercase() {\n"
CAP = "if rest.chars().all(|ch| ch.is_lowercase()) && lower_first.to_uppercase() == first.to_string() {"
ALL = "} else if rest.chars().all(|ch| ch.is_uppercase()) && lower_word.to_uppercase() == word {"

bug("p43 ascii first", "C43", (P, IF, "    if first.is_ascii_uppercase() {\n"))
bug("p43 ascii rest", "C43", (P, CAP, CAP.replace("is_lowercase", "is_ascii_lowercase")))
bug("p43 ascii caps", "C43", (P, ALL, ALL.replace("is_uppercase", "is_ascii_uppercase")))
bug("p43 long words", "C43", (P, IF, "    if first.is_uppercase() && word.len() < 64 {\n"))
bug("p43 long caps", "C43", (P, ALL, ALL.replace(" {", " && word.len() < 24 {")))
bug("p43 short caps", "C43", (P, CAP, CAP.replace("if rest", "if !rest.is_empty() && rest")), (P, ALL, ALL.replace("else if rest", "else if !rest.is_empty() && rest")))
bug("p43 same length", "C43", (P, CAP, CAP.replace(" {", " && lower_first.len() == 1 {")))
bug("p43 one char", "C43", (P, CAP, CAP.replace(" {", " && first.to_lowercase().count() == 1 && first.len_utf8() == lower_first.len() {")))
bug("p43 alphabetic", "C43", (P, IF, "    if first.is_uppercase() && rest.chars().all(|c| c.is_ascii_alphabetic()) {\n"))
bug("p43 caps never", "C43", (P, ALL, ALL.replace("lower_word.to_uppercase() == word", "lower_word.to_uppercase() == lower_word")))

same("r43 early return", (P, """    if first.is_uppercase() {
        let lower_first""", """    if !first.is_uppercase() {
        out.push_str(word);
        out.push('\\x16');
        return;
    }
    {
        let lower_first"""), (P, """            out.push_str(word);
        }
    } else {
        out.push_str(word);
    }
""", """            out.push_str(word);
        }
    }
"""))
same("r43 helpers", (P, "fn add_word(out", """fn capitalized(first: char, rest: &str) -> bool {
    first.is_uppercase() && rest.chars().all(char::is_lowercase)
}

fn restores(lower: &str, original: &str) -> bool {
    lower.to_uppercase() == original
}

fn add_word(out"""), (P, CAP, "if capitalized(first, rest) && restores(&lower_first, &first.to_string()) {"), (P, ALL, ALL.replace("lower_word.to_uppercase() == word", "restores(&lower_word, word)")))
same("r43 any", (P, CAP, "if !rest.chars().any(|ch| !ch.is_lowercase()) && first.to_string() == lower_first.to_uppercase() {"), (P, ALL, "} else if !rest.chars().any(|ch| !ch.is_uppercase()) && word == lower_word.to_uppercase() {"))
same("r43 match", (P, """    if first.is_uppercase() {
        let lower_first""", """    let upper = first.is_uppercase();
    match upper {
    true => {
        let lower_first"""), (P, """            out.push_str(word);
        }
    } else {
        out.push_str(word);
    }
""", """            out.push_str(word);
        }
    }
    false => out.push_str(word),
    }
"""))
same("r43 whole word caps", (P, ALL, ALL.replace("rest.chars().all", "word.chars().all")))
same("r43 bools", (P, IF, """    let rest_lower = rest.chars().all(|ch| ch.is_lowercase());
    let rest_upper = rest.chars().all(|ch| ch.is_uppercase());
    if first.is_uppercase() {
"""), (P, CAP, "if rest_lower && lower_first.to_uppercase() == first.to_string() {"), (P, ALL, "} else if rest_upper && lower_word.to_uppercase() == word {"))
same("r43 loop flags", (P, IF, """    let mut rest_lower = true;
    let mut rest_upper = true;
    for ch in rest.chars() {
        if !ch.is_lowercase() {
            rest_lower = false;
        }
        if !ch.is_uppercase() {
            rest_upper = false;
        }
    }
    if first.is_uppercase() {
"""), (P, CAP, "if rest_lower && lower_first.to_uppercase() == first.to_string() {"), (P, ALL, "} else if rest_upper && lower_word.to_uppercase() == word {"))
same("r43 counted", (P, IF, """    let lower_count = rest.chars().filter(|ch| ch.is_lowercase()).count();
    let rest_count = rest.chars().count();
    if first.is_uppercase() {
"""), (P, CAP, "if lower_count == rest_count && lower_first.to_uppercase() == first.to_string() {"))
same("r43 enum", (P, "fn add_word(out", """enum Form {
    Plain,
    Capital,
    Caps,
}

fn form(word: &str) -> Form {
    let mut chars = word.chars();
    let first = match chars.next() {
        Some(c) if c.is_uppercase() => c,
        _ => return Form::Plain,
    };
    let rest = chars.as_str();
    if rest.chars().all(|ch| ch.is_lowercase()) && first.to_lowercase().to_string().to_uppercase() == first.to_string() {
        Form::Capital
    } else if rest.chars().all(|ch| ch.is_uppercase()) && word.to_lowercase().to_uppercase() == word {
        Form::Caps
    } else {
        Form::Plain
    }
}

fn add_word(out"""), (P, """    if first.is_uppercase() {
        let lower_first = first.to_lowercase().to_string();
        let lower_word = word.to_lowercase();
        // Some letters (like 'İ' or 'ẞ') aren't restored by upper-casing.
        if rest.chars().all(|ch| ch.is_lowercase()) && lower_first.to_uppercase() == first.to_string() {
            out.push('\\x14');
            out.push_str(&lower_first);
            out.push_str(rest);
        } else if rest.chars().all(|ch| ch.is_uppercase()) && lower_word.to_uppercase() == word {
            out.push('\\x15');
            out.push_str(&lower_word);
        } else {
            out.push_str(word);
        }
    } else {
        out.push_str(word);
    }
""", """    match form(word) {
        Form::Capital => {
            out.push('\\x14');
            out.push_str(&first.to_lowercase().to_string());
            out.push_str(rest);
        }
        Form::Caps => {
            out.push('\\x15');
            out.push_str(&word.to_lowercase());
        }
        Form::Plain => out.push_str(word),
    }
"""))
