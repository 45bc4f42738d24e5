//! Preprocessor for specification files (Verus spec code with three conveniences):
//!   let PAT = EXPR?;        =>  match EXPR { None => None, Some(PAT) => { ... } }
//!   require COND;           =>  if !(COND) { None } else { ... }
//!   rep NAME(params) of TY = CALL;   a repeater: parse TY n times, appending to an accumulator
pub fn expand(text: &str) -> Result<String, String> {
    let text = &text.lines().map(|l| if l.trim_end().ends_with("?;") { l.replacen("{ let ", "{\nlet ", 1) } else { l.to_string() }).collect::<Vec<_>>().join("\n");
    let mut out = String::new();
    // stack of number of pending closers per brace depth
    let mut pend: Vec<String> = vec![String::new()];
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l2;
        let mut line = lines[i];
        if line.starts_with("spec fn ") {
            l2 = format!("pub open {}", line);
            line = &l2;
        } else if line.starts_with("proof fn ") || line.starts_with("broadcast proof fn ") {
            l2 = format!("#[verifier::spinoff_prover] {}", line);
            line = &l2;
        }
        let t = line.trim();
        if let Some(rest) = t.strip_prefix("rep ") {
            out.push_str(&rep(rest)?);
            out.push('\n');
            i += 1;
            continue;
        }
        if let Some(rest) = t.strip_prefix("require ") {
            // may span lines until ';'
            let mut full = rest.to_string();
            while !full.trim_end().ends_with(';') {
                i += 1;
                full.push(' ');
                full.push_str(lines[i].trim());
            }
            let c = full.trim_end().trim_end_matches(';');
            out.push_str(&format!("if !({}) {{ None }} else {{\n", c));
            pend.last_mut().unwrap().push('}');
            i += 1;
            continue;
        }
        if t.starts_with("let ") {
            let mut full = t.to_string();
            let mut j = i;
            while !full.trim_end().ends_with(';') && j + 1 < lines.len() {
                j += 1;
                full.push(' ');
                full.push_str(lines[j].trim());
            }
            if full.trim_end().ends_with("?;") {
                let f = full.trim_end().trim_end_matches("?;");
                let eq = f.find(" = ").ok_or_else(|| format!("bad let?: {}", f))?;
                let pat = &f[4..eq];
                let e = &f[eq + 3..];
                out.push_str(&format!("match {} {{ None => None, Some({}) => {{\n", e, pat));
                pend.last_mut().unwrap().push_str("}}");
                i = j + 1;
                continue;
            }
        }
        // ordinary line: track braces
        let mut res = String::new();
        let mut chars = line.chars().peekable();
        let mut in_str = false;
        while let Some(ch) = chars.next() {
            if in_str {
                res.push(ch);
                if ch == '\\' {
                    if let Some(c2) = chars.next() {
                        res.push(c2);
                    }
                } else if ch == '"' {
                    in_str = false;
                }
                continue;
            }
            match ch {
                '"' => {
                    in_str = true;
                    res.push(ch);
                }
                '\'' => {
                    // char literal or lifetime
                    res.push(ch);
                    let rest: String = chars.clone().take(3).collect();
                    let rc: Vec<char> = rest.chars().collect();
                    if rc.len() >= 2 && rc[0] != '\\' && rc[1] == '\'' {
                        res.push(rc[0]);
                        res.push('\'');
                        chars.next();
                        chars.next();
                    } else if rc.first() == Some(&'\\') {
                        while let Some(c2) = chars.next() {
                            res.push(c2);
                            if c2 == '\'' {
                                break;
                            }
                        }
                    }
                }
                '/' if chars.peek() == Some(&'/') => {
                    break;
                }
                '{' => {
                    pend.push(String::new());
                    res.push(ch);
                }
                '}' => {
                    let p = pend.pop().ok_or("unbalanced }")?;
                    res.push_str(&p);
                    res.push(ch);
                    if pend.is_empty() {
                        return Err(format!("unbalanced brace at line {}", i + 1));
                    }
                }
                _ => res.push(ch),
            }
        }
        out.push_str(&res);
        out.push('\n');
        i += 1;
    }
    if pend.len() != 1 || !pend[0].is_empty() {
        return Err("unbalanced braces in spec file".into());
    }
    Ok(out)
}

// rep s_lines(b: Seq<u8>, p: Seq<FEntry>) of LineNumberEntry = s_line(b, p, ix)
fn rep(rest: &str) -> Result<String, String> {
    let open = rest.find('(').ok_or("rep: no (")?;
    let name = rest[..open].trim();
    let gen = name.find('<').map(|k| name[k..].to_string()).unwrap_or_default();
    let bare = name.split('<').next().unwrap();
    let mut depth = 0;
    let mut close = 0;
    for (k, c) in rest.char_indices().skip(open) {
        match c {
            '(' => depth += 1,
            ')' => {
                depth -= 1;
                if depth == 0 {
                    close = k;
                    break;
                }
            }
            _ => {}
        }
    }
    let params = rest[open + 1..close].trim();
    let after = rest[close + 1..].trim();
    let after = after.strip_prefix("of ").ok_or("rep: expected of")?;
    let eq = after.find(" = ").ok_or("rep: expected =")?;
    let ty = after[..eq].trim();
    let mut call = after[eq + 3..].trim();
    let mut extra = String::new();
    if let Some(k) = call.find(" decreases ") {
        extra = call[k + 11..].trim().to_string();
        call = call[..k].trim();
    }
    let mut args: Vec<String> = vec![];
    let mut d = 0;
    let mut cur = String::new();
    for c in params.chars() {
        match c {
            '<' | '(' => d += 1,
            '>' | ')' => d -= 1,
            ',' if d == 0 => {
                args.push(cur.split(':').next().unwrap().trim().to_string());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        args.push(cur.split(':').next().unwrap().trim().to_string());
    }
    let args = args.join(", ");
    let sep = if args.is_empty() { "" } else { ", " };
    let dec = if extra.is_empty() { "n".to_string() } else { extra };
    Ok(format!(
        "pub open spec fn {bare}{gen}({params}, ix: int, n: int, acc: Seq<{ty}>) -> Option<(Seq<{ty}>, int)> decreases {dec} {{\n  if n <= 0 {{ Some((acc, ix)) }} else {{ match {call} {{ None => None, Some((x_, ix2_)) => {bare}({args}, ix2_, n - 1, acc.push(x_)) }} }}\n}}\n#[verifier::spinoff_prover] proof fn lemma_{bare}{gen}({params}, ix: int, n: int, acc: Seq<{ty}>)\n  ensures n <= 0 ==> {bare}({args}{sep}ix, n, acc) == Some((acc, ix)), n > 0 ==> match {call} {{ None => {bare}({args}{sep}ix, n, acc) is None, Some((x_, ix2_)) => {bare}({args}{sep}ix, n, acc) == {bare}({args}{sep}ix2_, n - 1, acc.push(x_)) }},\n{{}}"
    ))
}
