//! Contract files: one section per function of the code under verification.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct LoopC {
    pub before: String,
    pub inv: String,
    pub head: String,
    pub tail: String,
    pub after: String,
    pub rep: Option<String>,
}

#[derive(Default, Debug, Clone)]
pub struct Contract {
    pub key: String,
    pub owners: Vec<String>,
    pub spec: String,
    pub body: String,
    pub attr: String,
    pub cap: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub external: bool,
    /// the loops may be missing altogether
    pub optional: bool,
    /// verify the arms of the largest match in this many groups
    pub split: usize,
}

pub fn parse(text: &str, into: &mut BTreeMap<String, Contract>) -> Result<(), String> {
    let mut cur: Option<Contract> = None;
    #[derive(Clone, Copy)]
    enum Where {
        Spec,
        Body,
        Attr,
        Cap,
        Before(usize),
        Inv(usize),
        Head(usize),
        Tail(usize),
        After(usize),
    }
    let mut w = Where::Spec;
    let mut done: Vec<Contract> = vec![];
    for line in text.lines() {
        let t = line.trim();
        if t.starts_with("//#") {
            continue;
        }
        if let Some(rest) = t.strip_prefix("@fn ") {
            if let Some(c) = cur.take() {
                done.push(c);
            }
            let mut it = rest.split_whitespace();
            let key = it.next().ok_or("@fn without key")?.to_string();
            cur = Some(Contract {
                key,
                owners: it.map(|s| s.to_string()).collect(),
                ..Default::default()
            });
            w = Where::Spec;
            continue;
        }
        let c = match cur.as_mut() {
            Some(c) => c,
            None => continue,
        };
        if let Some(rest) = t.strip_prefix('@') {
            let mut it = rest.split_whitespace();
            let kw = it.next().unwrap_or("");
            let n: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            match kw {
                "body" => w = Where::Body,
                "attr" => w = Where::Attr,
                "cap" => w = Where::Cap,
                "external" => c.external = true,
                "optional" => c.optional = true,
                "split" => c.split = n,
                "before" => w = Where::Before(n),
                "loop" => w = Where::Inv(n),
                "head" => w = Where::Head(n),
                "tail" => w = Where::Tail(n),
                "after" => w = Where::After(n),
                "rep" => {
                    let text = rest.splitn(3, char::is_whitespace).nth(2).unwrap_or("").trim().to_string();
                    c.loops.entry(n).or_default().rep = Some(text);
                    w = Where::Inv(n);
                }
                _ => return Err(format!("unknown directive @{} in {}", kw, c.key)),
            }
            if let Where::Before(n) | Where::Inv(n) | Where::Head(n) | Where::Tail(n) | Where::After(n) = w {
                c.loops.entry(n).or_default();
            }
            continue;
        }
        let dst = match w {
            Where::Spec => &mut c.spec,
            Where::Body => &mut c.body,
            Where::Attr => &mut c.attr,
            Where::Cap => &mut c.cap,
            Where::Before(n) => &mut c.loops.entry(n).or_default().before,
            Where::Inv(n) => &mut c.loops.entry(n).or_default().inv,
            Where::Head(n) => &mut c.loops.entry(n).or_default().head,
            Where::Tail(n) => &mut c.loops.entry(n).or_default().tail,
            Where::After(n) => &mut c.loops.entry(n).or_default().after,
        };
        dst.push_str(line);
        dst.push('\n');
    }
    if let Some(c) = cur.take() {
        done.push(c);
    }
    for c in done {
        if into.insert(c.key.clone(), c.clone()).is_some() {
            return Err(format!("duplicate contract {}", c.key));
        }
    }
    Ok(())
}
