//! Generator of class files: mostly well-formed, with every structure, tag, opcode and attribute of
//! the format, and faults injected at random decision points.
use std::collections::HashMap;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

/// Numbers and strings found in the source; `new_*` are those the reference source does not have.
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<i64>,
    pub strs: Vec<String>,
    pub new_ints: Vec<i64>,
    pub new_strs: Vec<String>,
    /// attributes the change under test is about
    pub focus: Vec<&'static str>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Utf8,
    Int,
    Float,
    Long,
    Double,
    Class,
    Str,
    Field,
    Method,
    IMethod,
    Nat,
    MHandle,
    MType,
    Dyn,
    Indy,
    Module,
    Package,
    Second,
}

pub struct G<'d> {
    pub r: Rng,
    d: &'d Dict,
    cp: Vec<(K, Vec<u8>)>,
    memo: HashMap<(K, Vec<u8>), u16>,
    /// one in `fault` decisions goes wrong (0: never)
    fault: usize,
    big: usize,
    /// lengths beyond 16 bits appear in this input
    huge: bool,
    pub major: u16,
    /// positions and widths of the numbers written
    pub fields: Vec<(usize, usize)>,
    bsm_max: i32,
    forward: bool,
    one_attr: Option<&'static str>,
    depth: usize,
    rich: usize,
    iface: bool,
}

pub const ATTRS: [&str; 31] = [
    "ConstantValue", "Code", "StackMapTable", "Exceptions", "InnerClasses", "EnclosingMethod", "Synthetic", "Signature",
    "SourceFile", "SourceDebugExtension", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "Deprecated",
    "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations",
    "AnnotationDefault", "BootstrapMethods", "MethodParameters", "Module", "ModulePackages", "ModuleMainClass", "NestHost",
    "NestMembers", "PermittedSubclasses", "Record", "Other",
];

pub fn mutf8(s: &str) -> Vec<u8> {
    let mut o = vec![];
    for c in s.chars() {
        let c = c as u32;
        if c == 0 {
            o.extend([0xc0, 0x80]);
        } else if c < 0x80 {
            o.push(c as u8);
        } else if c < 0x800 {
            o.extend([0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]);
        } else if c < 0x10000 {
            o.extend([0xe0 | (c >> 12) as u8, 0x80 | ((c >> 6) & 63) as u8, 0x80 | (c & 63) as u8]);
        } else {
            let v = c - 0x10000;
            for h in [0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff)] {
                o.extend([0xe0 | (h >> 12) as u8, 0x80 | ((h >> 6) & 63) as u8, 0x80 | (h & 63) as u8]);
            }
        }
    }
    o
}

type B = Vec<u8>;
fn u1(b: &mut B, v: usize) {
    b.push(v as u8);
}
fn u2(b: &mut B, v: usize) {
    b.extend((v as u16).to_be_bytes());
}
fn u4(b: &mut B, v: usize) {
    b.extend((v as u32).to_be_bytes());
}

impl<'d> G<'d> {
    pub fn new(seed: u64, d: &'d Dict) -> G<'d> {
        let mut r = Rng::new(seed);
        let fault = *r.pick(&[0, 0, 0, 300, 100, 30]);
        let big = if r.one_in(40) { 1 } else { 0 };
        let huge = r.one_in(if d.new_ints.iter().any(|v| (600..300_000).contains(&v.wrapping_abs())) { 25 } else { 250 });
        let forward = r.one_in(2);
        let one_attr = if !d.focus.is_empty() && !r.one_in(4) {
            Some(*r.pick(&d.focus))
        } else if r.one_in(2) {
            Some(*r.pick(&ATTRS))
        } else {
            None
        };
        let major = *r.pick(&[65, 65, 61, 61, 61, 55, 60, 66, 54, 53, 52, 51, 50, 49, 48, 47, 46, 45, 44, 0, 0xffff]);
        let rich = 1 + r.below(4);
        let mut cp = vec![(K::Second, vec![])];
        if r.one_in(120) {
            // everything else sits high up in the pool
            let n = *r.pick(&[100, 240, 1000, 4090, 4090, 8180, 16370, 32750, 32750, 65000]);
            let text = !r.one_in(4);
            for _ in 0..n {
                cp.push(if text { (K::Utf8, vec![1, 0, 0]) } else { (K::Int, vec![3, 0, 0, 0, 7]) });
            }
        }
        G {
            r,
            d,
            cp,
            memo: HashMap::new(),
            fault,
            big,
            huge,
            major,
            fields: vec![],
            bsm_max: -1,
            forward,
            one_attr,
            depth: 0,
            rich,
            iface: false,
        }
    }
    fn bad(&mut self) -> bool {
        self.fault != 0 && self.r.one_in(self.fault)
    }
    fn newint(&mut self) -> Option<i64> {
        if !self.d.new_ints.is_empty() && self.r.one_in(4) {
            let v = *self.r.pick(&self.d.new_ints.clone());
            Some(v.wrapping_add(*self.r.pick(&[0, 0, 1, -1])))
        } else {
            None
        }
    }
    /// any number of `w` bytes
    fn num(&mut self, w: usize) -> u64 {
        let bits = 8 * w as u32;
        let max = if w == 8 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.newint() {
            Some(v) => v as u64,
            None => match self.r.below(8) {
                0 => self.r.below(4) as u64,
                1 => max,
                2 => (max >> 1).wrapping_add(self.r.below(2) as u64),
                3 => {
                    let b = self.r.below(bits as usize) as u32;
                    (1u64 << b).wrapping_add(self.r.below(3) as u64).wrapping_sub(1)
                }
                4 if !self.d.ints.is_empty() => *self.r.pick(&self.d.ints) as u64,
                5 => self.r.below(300) as u64,
                _ => self.r.next(),
            },
        };
        v & max
    }
    fn n1(&mut self) -> usize {
        self.num(1) as usize
    }
    fn n2(&mut self) -> usize {
        self.num(2) as usize
    }
    /// how many entries a list gets
    fn count(&mut self) -> usize {
        if self.big > 0 && self.r.one_in(6) {
            self.big -= 1;
            let cap = 700;
            if !self.d.new_ints.is_empty() && self.r.one_in(2) {
                if let Some(v) = self.newint() {
                    if (0..3000).contains(&v) {
                        return v as usize;
                    }
                }
            }
            return (*self.r.pick(&[15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 600])).min(cap);
        }
        if let Some(v) = self.newint() {
            if (0..40).contains(&v) && self.r.one_in(3) {
                return v as usize;
            }
        }
        *self.r.pick(&[0, 1, 1, 1, 2, 2, 3, 4])
    }
    /// a length around the limits of a count of 16 bits, or around a number the change brought
    fn long_len(&mut self) -> usize {
        let c: Vec<i64> = self.d.new_ints.iter().map(|v| v.wrapping_abs()).filter(|v| (600..300_000).contains(v)).collect();
        if !c.is_empty() && !self.r.one_in(4) {
            return (*self.r.pick(&c) + *self.r.pick(&[0, 0, 1, -1, 2, 8, 64])) as usize;
        }
        *self.r.pick(&[4095, 4096, 8193, 16384, 32767, 32768, 65534, 65535, 65535, 65536, 65536, 65537, 65540, 70000, 131072])
    }
    /// entries of a list whose entries cost little
    fn cheap_count(&mut self) -> usize {
        if self.huge && self.r.one_in(2) {
            self.long_len().min(0xffff)
        } else {
            self.count()
        }
    }
    /// something that is not zero, often in one bit
    fn odd2(&mut self) -> usize {
        if self.r.one_in(2) {
            1 << self.r.below(16)
        } else {
            self.n2()
        }
    }
    /// a declared count: now and then it lies
    fn lie(&mut self, n: usize) -> usize {
        if self.bad() {
            match self.r.below(4) {
                0 => n + 1,
                1 => n.wrapping_sub(1),
                2 => 0xffff,
                _ => self.n2(),
            }
        } else {
            n
        }
    }

    // ------------------------------------------------------------ names
    fn ident(&mut self) -> String {
        if !self.d.new_strs.is_empty() && self.r.one_in(6) {
            let s = self.r.pick(&self.d.new_strs.clone()).clone();
            if self.r.one_in(2) {
                return s;
            }
            return format!("{}{}", s, *self.r.pick(&["x", "", "1", "A"]));
        }
        match self.r.below(10) {
            0..=4 => (*self.r.pick(&["a", "b", "foo", "Bar", "x1", "LName", "V", "I", "this", "$", "_", "value"])).to_string(),
            5 => {
                let n = self.count() + 1;
                (0..n).map(|_| *self.r.pick(&['a', 'b', 'L', 'V', '$', '-', ' ', '@', ':', '(', ')'])).collect()
            }
            6 => {
                let n = self.count() + 1;
                (0..n).map(|_| self.odd_char()).collect()
            }
            7 if !self.d.strs.is_empty() => {
                let s = self.r.pick(&self.d.strs).clone();
                let t: String = s.chars().filter(|c| !".;[/<>".contains(*c)).collect();
                if t.is_empty() {
                    "q".into()
                } else {
                    t
                }
            }
            8 => format!("n{}", self.r.below(1000)),
            _ => format!("v{}", self.r.below(4)),
        }
    }
    /// any character at all: the ends of the encoded lengths, one that a narrower integer
    /// would confuse with a special one, one near a constant of the change
    fn odd_char(&mut self) -> char {
        const SPECIAL: [char; 14] = ['.', ';', '[', '/', '<', '>', 'L', 'V', '(', ')', '\u{1f}', '\\', ':', '@'];
        let c = match self.r.below(6) {
            0 => {
                let k = *self.r.pick(&[0x100, 0x100, 0x200, 0x3000, 0xfe00, 0x1_0000, 0x10_0000]);
                *self.r.pick(&SPECIAL) as u32 + k
            }
            1 => *self.r.pick(&SPECIAL) as u32 | 0x80,
            2 if !self.d.new_ints.is_empty() => {
                let v = *self.r.pick(&self.d.new_ints);
                (v as u32).wrapping_add(self.r.below(3) as u32).wrapping_sub(1)
            }
            3 => self.r.below(0x11_0000) as u32,
            _ => *self.r.pick(&['é', '中', '😀', 'a', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}', '\0']) as u32,
        };
        match char::from_u32(c) {
            Some(c) if !".;[/<>".contains(c) => c,
            _ => 'é',
        }
    }
    fn spoil(&mut self, s: String) -> String {
        let mut v: Vec<char> = s.chars().collect();
        let at = self.r.below(v.len() + 1);
        match self.r.below(5) {
            0 if !v.is_empty() => {
                v.remove(at.min(v.len() - 1));
            }
            1 if !v.is_empty() => {
                let c = *self.r.pick(&['.', ';', '[', '/', '<', '>', 'L', 'V', '(', ')', '\u{1f}', '\\', ':', '@']);
                let at = at.min(v.len() - 1);
                v[at] = c;
            }
            2 => v.clear(),
            _ => {
                let c = *self.r.pick(&[
                    '.', ';', '[', '/', '<', '>', 'L', 'V', 'I', '(', ')', '\u{1f}', '\0', '\t', '\n', '\r', '\\', ':', '@', ' ', 'é', '\u{a0}', '\u{85}',
                ]);
                match self.r.below(4) {
                    0 => v.push(c),
                    1 => v.insert(0, c),
                    _ => v.insert(at, c),
                }
            }
        }
        v.into_iter().collect()
    }
    /// something that looks almost like one of the two special names, or like a string the change brought
    fn nearly(&mut self) -> Option<String> {
        if !self.r.one_in(if self.d.new_strs.is_empty() { 150 } else { 15 }) {
            return None;
        }
        let s = match self.r.below(4) {
            0 if !self.d.new_strs.is_empty() => self.r.pick(&self.d.new_strs).clone(),
            1 => "<clinit>".to_string(),
            _ => "<init>".to_string(),
        };
        let mut v: Vec<char> = s.chars().collect();
        for _ in 0..1 + self.r.below(2) {
            let at = self.r.below(v.len() + 1);
            let end = *self.r.pick(&[0, v.len()]);
            let c = if v.is_empty() { '<' } else { v[at.min(v.len() - 1)] };
            match self.r.below(8) {
                0 if !v.is_empty() => {
                    v.remove(at.min(v.len() - 1));
                }
                1 => v.insert(at, c),
                2 => v.insert(end, if end == 0 { *v.first().unwrap_or(&'<') } else { v[end - 1] }),
                3 => v.insert(end, *self.r.pick(&['<', '>', ' ', '\0', 'x', '/', '.', '\u{a0}', '1'])),
                4 if v.len() > 1 => {
                    let a = at.min(v.len() - 2);
                    v.swap(a, a + 1)
                }
                5 if !v.is_empty() => {
                    let a = at.min(v.len() - 1);
                    v[a] = if v[a].is_uppercase() { v[a].to_ascii_lowercase() } else { v[a].to_ascii_uppercase() }
                }
                6 => v.truncate(at),
                _ => {
                    let c: Vec<char> = v.clone();
                    if v.len() < 20 {
                        v.extend(c)
                    }
                }
            }
        }
        Some(v.into_iter().collect())
    }
    /// a name that is the same but for a letter's case, its end or an underscore
    fn slight(&mut self, s: &str) -> String {
        let mut v: Vec<char> = s.chars().collect();
        let at = self.r.below(v.len().max(1));
        match self.r.below(4) {
            0 => v.push(*self.r.pick(&['_', '$', '1', 'x'])),
            1 if v.len() > 1 => {
                v.pop();
            }
            _ => {
                for a in (0..v.len()).map(|k| (at + k) % s.chars().count()) {
                    if v[a].is_ascii_alphabetic() {
                        v[a] = ((v[a] as u8) ^ 0x20) as char;
                        break;
                    }
                }
            }
        }
        v.into_iter().collect()
    }
    /// a descriptor that is the same but for something small
    fn slight_type(&mut self, s: &str) -> String {
        let mut v: Vec<char> = s.chars().collect();
        let mut inside = vec![];
        let mut prims = vec![];
        let (mut name, mut close) = (false, 0);
        for (i, &c) in v.iter().enumerate() {
            match c {
                _ if name && c == ';' => name = false,
                _ if name => {
                    if c.is_ascii_alphabetic() {
                        inside.push(i)
                    }
                }
                'L' => name = true,
                ')' => close = i,
                'B' | 'C' | 'D' | 'F' | 'I' | 'J' | 'S' | 'Z' => prims.push(i),
                _ => {}
            }
        }
        match self.r.below(4) {
            0 if !prims.is_empty() => {
                let a = *self.r.pick(&prims);
                v[a] = *self.r.pick(&['B', 'C', 'D', 'F', 'I', 'J', 'S', 'Z']);
            }
            1 => {
                let a = *self.r.pick(&[0, close]);
                if v.get(a) == Some(&'(') || v.get(a) == Some(&')') {
                    if v.get(a + 1) != Some(&'V') {
                        v.insert(a + 1, '[')
                    }
                } else {
                    v.insert(0, '[')
                }
            }
            _ if !inside.is_empty() => {
                let a = *self.r.pick(&inside);
                v[a] = ((v[a] as u8) ^ 0x20) as char;
            }
            _ => {}
        }
        v.into_iter().collect()
    }
    fn uname(&mut self) -> String {
        let s = if self.r.one_in(8) { format!("{}{}", self.ident(), *self.r.pick(&["<", ">", "<init>", "<x>"])) } else { self.ident() };
        if self.bad() {
            self.spoil(s)
        } else {
            s
        }
    }
    fn fname(&mut self) -> String {
        if let Some(s) = self.nearly() {
            return s;
        }
        let s = self.ident();
        if self.bad() {
            self.spoil(s)
        } else {
            s
        }
    }
    fn mname(&mut self) -> String {
        if let Some(s) = self.nearly() {
            return s;
        }
        let s = match self.r.below(12) {
            0 => "<init>".to_string(),
            1 if self.bad() => "<clinit>".to_string(),
            _ => self.ident(),
        };
        if self.bad() {
            self.spoil(s)
        } else {
            s
        }
    }
    pub fn cname(&mut self) -> String {
        let n = if self.big > 0 && self.r.one_in(10) { self.count() + 1 } else { *self.r.pick(&[1, 1, 2, 3]) };
        let v: Vec<String> = (0..n).map(|_| self.ident()).collect();
        let s = v.join("/");
        if self.bad() || self.fault == 0 && self.r.one_in(400) {
            self.spoil(s)
        } else {
            s
        }
    }
    fn modname(&mut self) -> String {
        let n = 1 + self.r.below(3);
        let mut s = String::new();
        for _ in 0..n {
            match self.r.below(6) {
                0 => s.push_str("\\:"),
                1 => s.push_str("\\@"),
                2 => s.push_str("\\\\"),
                3 => s.push_str(*self.r.pick(&["a.b", "/", " ", "\u{20}", "\u{7f}", "é", ";", "<"])),
                4 if self.r.one_in(3) => {
                    let c = self.odd_char();
                    s.push(c)
                }
                _ => {
                    let t: String = self.ident().chars().filter(|c| !":@\\".contains(*c) && *c > '\u{1f}').collect();
                    s.push_str(&t)
                }
            }
        }
        if self.bad() || self.r.one_in(200) {
            self.spoil(s)
        } else {
            s
        }
    }
    fn ftype(&mut self) -> String {
        if self.r.one_in(3) {
            format!("L{};", self.cname())
        } else {
            (*self.r.pick(&["B", "C", "D", "F", "I", "J", "S", "Z"])).to_string()
        }
    }
    fn fdesc(&mut self) -> String {
        let dims = match self.r.below(60) {
            0 if self.big > 0 => {
                self.big -= 1;
                *self.r.pick(&[253, 254, 255, 256, 257])
            }
            1 => match self.newint() {
                Some(v) if (0..300).contains(&v) => v as usize,
                _ => 2,
            },
            2..=12 => 1,
            13..=17 => 2,
            18 => 3,
            _ => 0,
        };
        let s = format!("{}{}", "[".repeat(dims), self.ftype());
        if self.bad() {
            self.spoil(s)
        } else {
            s
        }
    }
    fn mdesc(&mut self, void: bool) -> String {
        let n = if self.big > 0 && self.r.one_in(20) { self.count() } else { *self.r.pick(&[0, 0, 1, 2, 3]) };
        let mut s = String::from("(");
        for _ in 0..n {
            s.push_str(&self.fdesc());
        }
        s.push(')');
        if void || self.r.one_in(3) {
            s.push('V');
        } else {
            s.push_str(&self.fdesc());
        }
        if self.bad() || self.r.one_in(500) {
            self.spoil(s)
        } else {
            s
        }
    }

    // ------------------------------------------------------------ constant pool
    fn push(&mut self, k: K, b: Vec<u8>) -> u16 {
        if self.cp.len() > 60000 {
            return 1;
        }
        let wide = k == K::Long || k == K::Double;
        let ix = self.cp.len() as u16;
        self.cp.push((k, b));
        if wide {
            self.cp.push((K::Second, vec![]));
        }
        ix
    }
    fn ent(&mut self, k: K, b: Vec<u8>) -> u16 {
        if let Some(i) = self.memo.get(&(k, b.clone())) {
            if !self.r.one_in(12) {
                return *i;
            }
        }
        let i = self.push(k, b.clone());
        self.memo.insert((k, b), i);
        i
    }
    /// an entry whose children may come after it
    fn parent(&mut self, k: K, f: &mut dyn FnMut(&mut Self) -> Vec<u8>) -> u16 {
        if self.forward && self.r.one_in(3) && self.cp.len() < 60000 {
            let i = self.push(k, vec![]);
            let b = f(self);
            self.cp[i as usize].1 = b.clone();
            self.memo.insert((k, b), i);
            i
        } else {
            let b = f(self);
            self.ent(k, b)
        }
    }
    fn wrong(&mut self, right: u16) -> u16 {
        if self.bad() {
            match self.r.below(8) {
                0 => 0,
                1 => self.cp.len() as u16,
                2 => 0xffff,
                3 => (self.cp.len() as u16).wrapping_sub(1),
                4 => right.wrapping_add(1),
                5 => self.any_new(),
                _ => self.r.below(self.cp.len()) as u16,
            }
        } else {
            right
        }
    }
    fn any_new(&mut self) -> u16 {
        match self.r.below(17) {
            0 => {
                let s = self.ident();
                self.utf8(&s)
            }
            1 => self.int(),
            2 => self.float(),
            3 => self.long(),
            4 => self.double(),
            5 => self.class(),
            6 => self.string(),
            7 => self.field(),
            8 => self.method(),
            9 => self.imethod(),
            10 => self.nat_f(),
            11 => self.mhandle(),
            12 => self.mtype(),
            13 => self.dynamic(),
            14 => self.indy(),
            15 => self.module(),
            _ => self.package(),
        }
    }
    pub fn utf8(&mut self, s: &str) -> u16 {
        let b = mutf8(s);
        self.utf8b(b)
    }
    fn utf8b(&mut self, b: Vec<u8>) -> u16 {
        let mut o = vec![1];
        u2(&mut o, b.len());
        o.extend(b);
        if o.len() > 65538 {
            o = vec![1, 0, 1, b'q'];
        }
        self.ent(K::Utf8, o)
    }
    fn text(&mut self) -> u16 {
        if self.huge && self.r.one_in(8) {
            let n = self.long_len().min(0xffff);
            return self.utf8b(vec![b'L'; n]);
        }
        if self.r.one_in(20) || self.bad() {
            let b: Vec<u8> = match self.r.below(7) {
                0 => vec![0xed, 0xa0, 0x80],
                1 => vec![0],
                2 => vec![0x80],
                3 => vec![0xf0, 0x9f, 0x98, 0x80],
                4 => vec![b'a', 0xff],
                5 => vec![0xc0, 0x80, b'b'],
                _ => vec![0xe4, 0xb8],
            };
            return self.utf8b(b);
        }
        let s = match self.r.below(5) {
            0 => String::new(),
            1 => self.fdesc(),
            2 => self.cname(),
            3 => self.modname(),
            _ => self.ident(),
        };
        self.utf8(&s)
    }
    fn int(&mut self) -> u16 {
        let v = self.num(4) as usize;
        let mut o = vec![3];
        u4(&mut o, v);
        self.ent(K::Int, o)
    }
    fn float(&mut self) -> u16 {
        let v = if self.r.one_in(3) { *self.r.pick(&[0x7fc00001u64, 0x7f800001, 0xffffffff, 0x80000000, 0x7f800000]) } else { self.num(4) };
        let mut o = vec![4];
        u4(&mut o, v as usize);
        self.ent(K::Float, o)
    }
    fn long(&mut self) -> u16 {
        let v = self.num(8);
        let mut o = vec![5];
        o.extend(v.to_be_bytes());
        self.ent(K::Long, o)
    }
    fn double(&mut self) -> u16 {
        let v = if self.r.one_in(3) { *self.r.pick(&[0x7ff8000000000001u64, 0x7ff0000000000001, u64::MAX, 1 << 63]) } else { self.num(8) };
        let mut o = vec![6];
        o.extend(v.to_be_bytes());
        self.ent(K::Double, o)
    }
    fn r1(&mut self, k: K, tag: u8, f: &mut dyn FnMut(&mut Self) -> u16) -> u16 {
        self.parent(k, &mut |g| {
            let a = f(g);
            let a = g.wrong(a);
            let mut o = vec![tag];
            u2(&mut o, a as usize);
            o
        })
    }
    fn r2(&mut self, k: K, tag: u8, f: &mut dyn FnMut(&mut Self) -> (u16, u16)) -> u16 {
        self.parent(k, &mut |g| {
            let (a, b) = f(g);
            let a = g.wrong(a);
            let b = g.wrong(b);
            let mut o = vec![tag];
            u2(&mut o, a as usize);
            u2(&mut o, b as usize);
            o
        })
    }
    fn class_named(&mut self, s: String) -> u16 {
        self.r1(K::Class, 7, &mut |g| g.utf8(&s))
    }
    fn class(&mut self) -> u16 {
        let s = self.cname();
        self.class_named(s)
    }
    fn class_or_array(&mut self) -> u16 {
        let s = if self.r.one_in(3) { format!("[{}", self.fdesc()) } else { self.cname() };
        self.class_named(s)
    }
    fn string(&mut self) -> u16 {
        self.r1(K::Str, 8, &mut |g| g.text())
    }
    fn nat_f(&mut self) -> u16 {
        let (n, d) = (self.uname(), self.fdesc());
        self.nat(n, d)
    }
    fn nat_m(&mut self) -> u16 {
        let (n, d) = (self.mname(), self.mdesc(false));
        let d = if n == "<init>" && !self.bad() { "()V".to_string() } else { d };
        self.nat(n, d)
    }
    fn nat(&mut self, n: String, d: String) -> u16 {
        self.r2(K::Nat, 12, &mut |g| (g.utf8(&n), g.utf8(&d)))
    }
    fn field(&mut self) -> u16 {
        self.r2(K::Field, 9, &mut |g| (g.class_or_array(), g.nat_f()))
    }
    fn method(&mut self) -> u16 {
        self.r2(K::Method, 10, &mut |g| (g.class_or_array(), g.nat_m()))
    }
    fn method_named(&mut self, n: &str) -> u16 {
        let n = n.to_string();
        self.r2(K::Method, 10, &mut |g| {
            let d = g.mdesc(true);
            (g.class_or_array(), g.nat(n.clone(), d))
        })
    }
    fn imethod(&mut self) -> u16 {
        self.r2(K::IMethod, 11, &mut |g| (g.class_or_array(), g.nat_m()))
    }
    fn mhandle(&mut self) -> u16 {
        let kind = if self.bad() { self.n1() } else { 1 + self.r.below(9) };
        self.parent(K::MHandle, &mut |g| {
            let rf = match kind {
                1..=4 => g.field(),
                5 => g.method(),
                6 | 7 if g.major >= 52 && g.r.one_in(2) => g.imethod(),
                6 | 7 => g.method(),
                8 => g.method_named("<init>"),
                _ => g.imethod(),
            };
            let rf = g.wrong(rf);
            let mut o = vec![15, kind as u8];
            u2(&mut o, rf as usize);
            o
        })
    }
    fn mtype(&mut self) -> u16 {
        let d = self.mdesc(false);
        self.r1(K::MType, 16, &mut |g| g.utf8(&d))
    }
    fn bsm(&mut self) -> u16 {
        let i = self.r.below(3);
        self.bsm_max = self.bsm_max.max(i as i32);
        if self.bad() {
            return self.n2() as u16;
        }
        i as u16
    }
    fn dynamic(&mut self) -> u16 {
        self.parent(K::Dyn, &mut |g| {
            let i = g.bsm();
            let n = g.nat_f();
            let n = g.wrong(n);
            let mut o = vec![17];
            u2(&mut o, i as usize);
            u2(&mut o, n as usize);
            o
        })
    }
    fn indy(&mut self) -> u16 {
        self.parent(K::Indy, &mut |g| {
            let i = g.bsm();
            let n = g.nat_m();
            let n = g.wrong(n);
            let mut o = vec![18];
            u2(&mut o, i as usize);
            u2(&mut o, n as usize);
            o
        })
    }
    fn module(&mut self) -> u16 {
        if self.major < 53 {
            return self.class();
        }
        let s = self.modname();
        self.r1(K::Module, 19, &mut |g| g.utf8(&s))
    }
    fn package(&mut self) -> u16 {
        if self.major < 53 {
            return self.class();
        }
        let s = self.cname();
        self.r1(K::Package, 20, &mut |g| g.utf8(&s))
    }
    fn old(&self) -> bool {
        self.major < 51
    }
    fn loadable(&mut self) -> u16 {
        match self.r.below(8) {
            0 => self.int(),
            1 => self.float(),
            2 => self.long(),
            3 => self.double(),
            4 => self.string(),
            5 if self.major >= 49 => self.class_or_array(),
            6 if !self.old() => self.mhandle(),
            7 if !self.old() => self.mtype(),
            _ if self.major >= 55 && self.r.one_in(3) => self.dynamic(),
            _ => self.int(),
        }
    }

    // ------------------------------------------------------------ references from the class body
    fn w(&mut self, b: &mut B, i: u16) {
        let i = self.wrong(i);
        u2(b, i as usize);
    }
    fn w_class(&mut self, b: &mut B) {
        let i = self.class();
        self.w(b, i);
    }
    fn w_class_opt(&mut self, b: &mut B) {
        if self.r.one_in(3) {
            u2(b, 0)
        } else {
            self.w_class(b)
        }
    }
    fn w_str(&mut self, b: &mut B, s: &str) {
        let i = self.utf8(s);
        self.w(b, i);
    }
    fn w_text(&mut self, b: &mut B) {
        let s = self.ident();
        self.w_str(b, &s);
    }
    fn w_text_opt(&mut self, b: &mut B) {
        if self.r.one_in(3) {
            u2(b, 0)
        } else {
            self.w_text(b)
        }
    }
    fn list(&mut self, b: &mut B, f: &mut dyn FnMut(&mut Self, &mut B)) {
        let n = self.count();
        let d = self.lie(n);
        u2(b, d);
        for _ in 0..n {
            f(self, b);
        }
    }
    fn cheap_list(&mut self, b: &mut B, f: &mut dyn FnMut(&mut Self, &mut B)) {
        let n = self.cheap_count();
        let d = self.lie(n);
        u2(b, d);
        for _ in 0..n {
            f(self, b);
        }
    }
    fn list1(&mut self, b: &mut B, f: &mut dyn FnMut(&mut Self, &mut B)) {
        let n = self.count().min(255);
        let d = self.lie(n);
        u1(b, d);
        for _ in 0..n {
            f(self, b);
        }
    }
    fn v2(&mut self, b: &mut B) {
        let v = self.n2();
        u2(b, v);
    }
    fn v1(&mut self, b: &mut B) {
        let v = self.n1();
        u1(b, v);
    }

    // ------------------------------------------------------------ attributes
    fn vtype(&mut self, b: &mut B) {
        let t = if self.bad() { self.n1() } else { self.r.below(9) };
        u1(b, t);
        match t {
            7 => {
                let c = self.class_or_array();
                self.w(b, c)
            }
            8 => self.v2(b),
            _ => {}
        }
    }
    fn stackmap(&mut self, b: &mut B) {
        self.list(b, &mut |g, b| {
            let t = match g.r.below(14) {
                0 => 0,
                1 => 63,
                2 => 64,
                3 => 127,
                4 => 247,
                5 => 248,
                6 => 250,
                7 => 251,
                8 => 252,
                9 => 254,
                10 => 255,
                11 => g.r.below(128),
                12 => 247 + g.r.below(9),
                _ => {
                    if g.bad() {
                        128 + g.r.below(119)
                    } else {
                        249
                    }
                }
            };
            u1(b, t);
            match t {
                0..=63 => {}
                64..=127 => g.vtype(b),
                247 => {
                    g.v2(b);
                    g.vtype(b)
                }
                248..=251 => g.v2(b),
                252..=254 => {
                    g.v2(b);
                    for _ in 0..t - 251 {
                        g.vtype(b)
                    }
                }
                255 => {
                    g.v2(b);
                    g.list(b, &mut |g, b| g.vtype(b));
                    g.list(b, &mut |g, b| g.vtype(b));
                }
                _ => {}
            }
        });
    }
    fn annotation(&mut self, b: &mut B, depth: usize) {
        let d = self.fdesc();
        self.w_str(b, &d);
        let n = if depth > 3 { self.r.below(2) } else { self.count() };
        let l = self.lie(n);
        u2(b, l);
        for _ in 0..n {
            self.w_text(b);
            self.elem(b, depth + 1);
        }
    }
    fn elem(&mut self, b: &mut B, depth: usize) {
        let mut t = *self.r.pick(b"BCDFIJSZsec@[");
        if depth > 4 && (t == b'@' || t == b'[') {
            t = b'I';
        }
        if self.bad() {
            t = self.n1() as u8;
        }
        b.push(t);
        match t {
            b'B' | b'C' | b'I' | b'S' | b'Z' => {
                let i = self.int();
                self.w(b, i)
            }
            b'D' => {
                let i = self.double();
                self.w(b, i)
            }
            b'F' => {
                let i = self.float();
                self.w(b, i)
            }
            b'J' => {
                let i = self.long();
                self.w(b, i)
            }
            b's' => {
                let i = self.text();
                self.w(b, i)
            }
            b'e' => {
                let d = self.fdesc();
                self.w_str(b, &d);
                let n = self.uname();
                self.w_str(b, &n)
            }
            b'c' => {
                let d = if self.r.one_in(3) { "V".into() } else { self.fdesc() };
                self.w_str(b, &d)
            }
            b'@' => self.annotation(b, depth + 1),
            b'[' => {
                let n = if depth > 3 { 1 } else { self.count() };
                let l = self.lie(n);
                u2(b, l);
                for _ in 0..n {
                    self.elem(b, depth + 1);
                }
            }
            _ => {}
        }
    }
    fn type_annotation(&mut self, b: &mut B) {
        let ts = [0x00, 0x01, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x4b];
        let t = if self.bad() { self.n1() } else { *self.r.pick(&ts) };
        u1(b, t);
        match t {
            0x00 | 0x01 | 0x16 => self.v1(b),
            0x10 | 0x17 | 0x42 | 0x43..=0x46 => self.v2(b),
            0x11 | 0x12 => {
                self.v1(b);
                self.v1(b)
            }
            0x40 | 0x41 => self.list(b, &mut |g, b| {
                g.v2(b);
                g.v2(b);
                g.v2(b);
            }),
            0x47..=0x4b => {
                self.v2(b);
                self.v1(b)
            }
            _ => {}
        }
        self.list1(b, &mut |g, b| {
            let k = if g.bad() { g.n1() } else { g.r.below(4) };
            u1(b, k);
            if k == 3 || g.bad() {
                g.v1(b)
            } else {
                u1(b, 0)
            }
        });
        self.annotation(b, 0);
    }
    fn bootstrap(&mut self, b: &mut B) {
        let min = (self.bsm_max + 1) as usize;
        let n = if self.bad() { min.saturating_sub(1) } else { min.max(self.count()) };
        u2(b, n);
        for _ in 0..n {
            let h = self.mhandle();
            self.w(b, h);
            self.list(b, &mut |g, b| {
                let a = match g.r.below(8) {
                    0 => g.int(),
                    1 => g.float(),
                    2 => g.long(),
                    3 => g.double(),
                    4 => g.string(),
                    5 => g.class_or_array(),
                    6 => g.mhandle(),
                    _ => g.mtype(),
                };
                g.w(b, a)
            });
        }
    }
    fn module_attr(&mut self, b: &mut B) {
        let m = self.module();
        self.w(b, m);
        self.v2(b);
        self.w_text_opt(b);
        self.list(b, &mut |g, b| {
            let m = g.module();
            g.w(b, m);
            g.v2(b);
            g.w_text_opt(b);
        });
        for _ in 0..2 {
            self.list(b, &mut |g, b| {
                let m = g.package();
                g.w(b, m);
                g.v2(b);
                g.list(b, &mut |g, b| {
                    let m = g.module();
                    g.w(b, m)
                });
            });
        }
        self.list(b, &mut |g, b| g.w_class(b));
        self.list(b, &mut |g, b| {
            g.w_class(b);
            g.list(b, &mut |g, b| g.w_class(b));
        });
    }
    fn attr_named(&mut self, b: &mut B, name: &str) {
        let an = if name == "Other" {
            match self.r.below(4) {
                0 => self.ident(),
                1 => {
                    let s = self.r.pick(&ATTRS).to_string();
                    self.spoil(s)
                }
                2 => {
                    let s = self.r.pick(&ATTRS).to_string();
                    let at = self.r.below(s.len());
                    s[..at].to_string()
                }
                _ => "Custom".into(),
            }
        } else if self.r.one_in(120) {
            // all but the name of an attribute, with what that attribute holds
            match self.r.below(7) {
                0 => name.to_ascii_lowercase(),
                1 => name.to_ascii_uppercase(),
                2 => format!("{}{}", name, *self.r.pick(&[" ", "\0", "s", "\n", ";", "2", "_"])),
                3 => format!("{}{}", *self.r.pick(&[" ", "\0", "\t", "/", "java.", "\u{feff}"]), name),
                4 => name[..name.len() - 1].to_string(),
                5 => name[1..].to_string(),
                _ => self.slight(name),
            }
        } else {
            name.to_string()
        };
        self.w_str(b, &an);
        let mut p: B = vec![];
        self.depth += 1;
        match name {
            "ConstantValue" => {
                let i = match self.r.below(5) {
                    0 => self.int(),
                    1 => self.float(),
                    2 => self.long(),
                    3 => self.double(),
                    _ => self.string(),
                };
                self.w(&mut p, i)
            }
            "Code" => self.code(&mut p),
            "StackMapTable" => self.stackmap(&mut p),
            "Exceptions" | "NestMembers" | "PermittedSubclasses" => self.list(&mut p, &mut |g, b| g.w_class(b)),
            "InnerClasses" => self.list(&mut p, &mut |g, b| {
                g.w_class(b);
                g.w_class_opt(b);
                if g.r.one_in(3) {
                    u2(b, 0)
                } else {
                    let n = g.uname();
                    g.w_str(b, &n)
                }
                g.v2(b);
            }),
            "EnclosingMethod" => {
                self.w_class(&mut p);
                if self.r.one_in(3) {
                    u2(&mut p, 0)
                } else {
                    let n = self.nat_m();
                    self.w(&mut p, n)
                }
            }
            "Synthetic" | "Deprecated" => {}
            "Signature" | "SourceFile" => self.w_text(&mut p),
            "SourceDebugExtension" => {
                p = match self.r.below(6) {
                    0 => vec![0xff],
                    1 => vec![0xed, 0xa0, 0x80],
                    2 => vec![0],
                    _ => {
                        let s = self.ident();
                        mutf8(&s)
                    }
                }
            }
            "LineNumberTable" => self.cheap_list(&mut p, &mut |g, b| {
                g.v2(b);
                g.v2(b)
            }),
            "LocalVariableTable" => self.list(&mut p, &mut |g, b| {
                g.v2(b);
                g.v2(b);
                let n = g.uname();
                g.w_str(b, &n);
                let d = g.fdesc();
                g.w_str(b, &d);
                g.v2(b)
            }),
            "LocalVariableTypeTable" => self.list(&mut p, &mut |g, b| {
                g.v2(b);
                g.v2(b);
                let n = g.uname();
                g.w_str(b, &n);
                g.w_text(b);
                g.v2(b)
            }),
            "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" => self.list(&mut p, &mut |g, b| g.annotation(b, 0)),
            "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => {
                self.list1(&mut p, &mut |g, b| g.list(b, &mut |g, b| g.annotation(b, 1)))
            }
            "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => {
                self.list(&mut p, &mut |g, b| g.type_annotation(b))
            }
            "AnnotationDefault" => self.elem(&mut p, 0),
            "BootstrapMethods" => self.bootstrap(&mut p),
            "MethodParameters" => self.list1(&mut p, &mut |g, b| {
                if g.r.one_in(3) {
                    u2(b, 0)
                } else {
                    let n = g.uname();
                    g.w_str(b, &n)
                }
                g.v2(b)
            }),
            "Module" => self.module_attr(&mut p),
            "ModulePackages" => self.list(&mut p, &mut |g, b| {
                let i = g.package();
                g.w(b, i)
            }),
            "ModuleMainClass" | "NestHost" => self.w_class(&mut p),
            "Record" => self.list(&mut p, &mut |g, b| {
                let n = g.uname();
                g.w_str(b, &n);
                let d = g.fdesc();
                g.w_str(b, &d);
                g.attrs(b, &[]);
            }),
            _ => {
                let n = if self.huge { self.long_len() } else { self.count() };
                p = (0..n).map(|_| self.n1() as u8).collect();
            }
        }
        self.depth -= 1;
        let mut len = p.len();
        if self.bad() {
            match self.r.below(5) {
                0 => len += 1,
                1 => len = len.wrapping_sub(1),
                2 => {
                    // a byte more, and declared
                    p.push(0);
                    len += 1;
                }
                3 => {
                    // a byte less, and declared
                    p.pop();
                    len = p.len();
                }
                _ => len = self.num(4) as usize,
            }
        }
        u4(b, len);
        b.extend(p);
    }
    fn attrs(&mut self, b: &mut B, must: &[&str]) {
        let mut v: Vec<&str> = must.to_vec();
        if self.depth < 4 {
            let n = match self.depth {
                0 => self.r.below(self.rich + 1),
                1 => self.r.below(3),
                _ => self.r.below(2),
            };
            for _ in 0..n {
                let a = match self.one_attr {
                    Some(a) if self.r.one_in(2) => a,
                    _ => *self.r.pick(&ATTRS),
                };
                if a == "BootstrapMethods" && !self.r.one_in(10) {
                    continue;
                }
                if a.starts_with("Module") && a != "ModuleMainClass" && self.major < 53 {
                    continue;
                }
                let at = self.r.below(v.len() + 1);
                v.insert(at, a);
            }
        }
        let n = self.lie(v.len());
        u2(b, n);
        for a in v {
            self.attr_named(b, a);
        }
    }

    // ------------------------------------------------------------ bytecode
    fn code(&mut self, b: &mut B) {
        self.v2(b);
        self.v2(b);
        let c = self.bytecode();
        let mut n = c.len();
        if self.bad() {
            n = match self.r.below(3) {
                0 => n + 1,
                1 => n.wrapping_sub(1),
                _ => self.num(4) as usize,
            };
        }
        u4(b, n);
        b.extend(c);
        self.cheap_list(b, &mut |g, b| {
            g.v2(b);
            g.v2(b);
            g.v2(b);
            g.w_class_opt(b);
        });
        self.attrs(b, &[]);
    }
    pub fn bytecode(&mut self) -> Vec<u8> {
        if self.huge && self.r.one_in(2) {
            return self.long_bytecode();
        }
        let n = match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 if self.big > 0 => self.count() * 2,
            3 => 20 + self.r.below(20),
            _ => 1 + self.r.below(8),
        };
        let only = if self.r.one_in(4) { Some(self.r.below(0xcb)) } else { None };
        let mut out: Vec<u8> = vec![];
        let mut starts = vec![];
        // (where, width, origin)
        let mut fix: Vec<(usize, usize, usize)> = vec![];
        for _ in 0..n {
            let at = out.len();
            let mut op = match only {
                Some(o) if self.r.one_in(2) => o,
                _ => match self.r.below(10) {
                    0 => 0xaa,
                    1 => 0xab,
                    2 => 0xc4,
                    3 => 0x99 + self.r.below(16),
                    4 => 0xb2 + self.r.below(16),
                    5 => *self.r.pick(&[0x12, 0x13, 0x14, 0xc0, 0xc1, 0xc5, 0xbd, 0xbc, 0xc6, 0xc7, 0xc8, 0xc9, 0x84, 0xa9]),
                    _ => self.r.below(0xca),
                },
            };
            if self.r.one_in(60) {
                op = *self.r.pick(&[0xca, 0xfe, 0xff]);
            }
            if self.bad() {
                op = self.n1();
            }
            if op == 0xba && self.old() {
                op = 0xb8;
            }
            starts.push(at);
            out.push(op as u8);
            match op {
                0x10 | 0x15..=0x19 | 0x36..=0x3a | 0xa9 => self.v1(&mut out),
                0x11 => self.v2(&mut out),
                0x12 => {
                    let i = self.loadable();
                    let i = self.wrong(i);
                    if i < 256 {
                        u1(&mut out, i as usize)
                    } else {
                        out.pop();
                        out.push(0x13);
                        u2(&mut out, i as usize);
                    }
                }
                0x13 | 0x14 => {
                    let i = self.loadable();
                    self.w(&mut out, i)
                }
                0x84 => {
                    self.v1(&mut out);
                    self.v1(&mut out)
                }
                0x99..=0xa8 | 0xc6 | 0xc7 => {
                    fix.push((out.len(), 2, at));
                    u2(&mut out, 0)
                }
                0xc8 | 0xc9 => {
                    fix.push((out.len(), 4, at));
                    u4(&mut out, 0)
                }
                0xaa | 0xab => {
                    while out.len() % 4 != 0 {
                        let f = if self.r.one_in(4) { self.n1() } else { 0 };
                        u1(&mut out, f)
                    }
                    fix.push((out.len(), 4, at));
                    u4(&mut out, 0);
                    let n = if self.r.one_in(60) { *self.r.pick(&[127, 128, 255, 256, 257, 300, 1000, 5000]) } else { self.count() };
                    if op == 0xaa {
                        let n = n.max(1);
                        let low = self.num(4) as u32 as i32;
                        let low = if low as i64 + n as i64 > i32::MAX as i64 && !self.bad() { i32::MAX - n as i32 + 1 } else { low };
                        let high = low.wrapping_add(n as i32 - 1);
                        let high = if self.bad() { self.num(4) as u32 as i32 } else { high };
                        out.extend(low.to_be_bytes());
                        out.extend(high.to_be_bytes());
                        for _ in 0..n {
                            fix.push((out.len(), 4, at));
                            u4(&mut out, 0)
                        }
                    } else {
                        let l = if self.bad() { self.num(4) as usize } else { n };
                        u4(&mut out, l);
                        let mut ms: Vec<i32> = (0..n).map(|_| self.num(4) as u32 as i32).collect();
                        if self.r.one_in(2) {
                            ms.sort();
                        }
                        for m in ms {
                            out.extend(m.to_be_bytes());
                            fix.push((out.len(), 4, at));
                            u4(&mut out, 0)
                        }
                    }
                }
                0xb2..=0xb5 => {
                    let i = self.field();
                    self.w(&mut out, i)
                }
                0xb6 => {
                    let i = self.method();
                    self.w(&mut out, i)
                }
                0xb7 | 0xb8 => {
                    let i = if self.r.one_in(3) { self.imethod() } else { self.method() };
                    self.w(&mut out, i)
                }
                0xb9 => {
                    let i = self.imethod();
                    self.w(&mut out, i);
                    let c = if self.r.one_in(3) { self.n1() } else { 1 };
                    u1(&mut out, c);
                    let z = if self.bad() { self.odd2() & 0xff } else { 0 };
                    u1(&mut out, z);
                }
                0xba => {
                    let i = self.indy();
                    self.w(&mut out, i);
                    let z = if self.bad() { self.odd2() } else { 0 };
                    u2(&mut out, z);
                }
                0xbb => {
                    let i = self.class();
                    self.w(&mut out, i)
                }
                0xbd | 0xc0 | 0xc1 => {
                    let i = self.class_or_array();
                    self.w(&mut out, i)
                }
                0xbc => {
                    let t = if self.bad() { self.n1() } else { 4 + self.r.below(8) };
                    u1(&mut out, t)
                }
                0xc4 => {
                    let o = if self.bad() {
                        self.n1()
                    } else {
                        *self.r.pick(&[0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3a, 0xa9, 0x84])
                    };
                    u1(&mut out, o);
                    self.v2(&mut out);
                    if o == 0x84 {
                        self.v2(&mut out)
                    }
                }
                0xc5 => {
                    let i = self.class_or_array();
                    self.w(&mut out, i);
                    let d = 1 + self.r.below(3);
                    u1(&mut out, d)
                }
                _ => {}
            }
        }
        let len = out.len();
        for (p, w, at) in fix {
            let t: i64 = if self.bad() {
                match self.r.below(6) {
                    0 => len as i64,
                    1 => -1,
                    2 => self.num(4) as u32 as i32 as i64,
                    3 => *self.r.pick(&[i32::MAX as i64, i32::MIN as i64, i16::MAX as i64, i16::MIN as i64]),
                    4 => self.r.below(len) as i64,
                    _ => *self.r.pick(&starts) as i64 + 1,
                }
            } else {
                *self.r.pick(&starts) as i64
            };
            let j = t.wrapping_sub(at as i64);
            if w == 2 {
                out[p..p + 2].copy_from_slice(&(j as i16).to_be_bytes());
            } else {
                out[p..p + 4].copy_from_slice(&(j as i32).to_be_bytes());
            }
        }
        if self.bad() && !out.is_empty() {
            out.pop();
        }
        out
    }

    /// code of a length the other generator never gets to
    fn long_bytecode(&mut self) -> Vec<u8> {
        let n = self.long_len();
        let mut out: Vec<u8> = vec![];
        let mode = self.r.below(4);
        if mode == 0 {
            // a jump from the first instruction to the last, or from the last to the first
            out.push(0xc8);
            u4(&mut out, n - 1);
        }
        if mode == 1 && n >= 20 {
            // a switch that fills the code
            let k = (n - 17) / 4;
            out.extend([0xaa, 0, 0, 0]);
            u4(&mut out, n - 1);
            let low = self.num(4) as u32 as i32;
            let low = low.min(i32::MAX - k as i32);
            out.extend(low.to_be_bytes());
            out.extend((low + k as i32 - 1).to_be_bytes());
            for _ in 0..k {
                u4(&mut out, n - 1);
            }
        }
        let op = *self.r.pick(&[0u8, 3, 0x57, 0x2a]);
        while out.len() < n.saturating_sub(if mode == 2 { 5 } else { 1 }) {
            out.push(op);
        }
        if mode == 2 {
            out.push(0xc8);
            out.extend((-(out.len() as i64 - 1) as i32).to_be_bytes());
        } else {
            out.push(0xb1);
        }
        out
    }

    // ------------------------------------------------------------ whole class
    fn deep(&mut self, b: &mut B) {
        // an attribute nested to a chosen depth
        let lim = |g: &mut Self, v: &[usize]| match g.newint() {
            Some(v) if (1..300).contains(&v) => v as usize,
            _ => *g.r.pick(v),
        };
        match self.r.below(3) {
            0 => {
                let n = lim(self, &[2, 14, 15, 16, 17, 18, 19, 30]);
                let inner = self.utf8("Synthetic");
                let mut p: B = vec![];
                u2(&mut p, inner as usize);
                u4(&mut p, 0);
                for _ in 0..n {
                    let mut q: B = vec![];
                    if self.r.one_in(2) {
                        let nm = self.utf8("Record");
                        u2(&mut q, nm as usize);
                        u4(&mut q, 2 + 2 + 2 + 2 + p.len());
                        u2(&mut q, 1);
                        let x = self.utf8("x");
                        u2(&mut q, x as usize);
                        let x = self.utf8("I");
                        u2(&mut q, x as usize);
                    } else {
                        let nm = self.utf8("Code");
                        u2(&mut q, nm as usize);
                        u4(&mut q, 2 + 2 + 4 + 1 + 2 + 2 + p.len());
                        u2(&mut q, 0);
                        u2(&mut q, 0);
                        u4(&mut q, 1);
                        u1(&mut q, 0);
                        u2(&mut q, 0);
                    }
                    u2(&mut q, 1);
                    q.extend(p);
                    p = q;
                }
                u2(b, 1);
                b.extend(p);
            }
            _ => {
                let n = lim(self, &[2, 61, 62, 63, 64, 65, 66, 67, 130]);
                let one = self.int();
                let mut p: B = vec![b'I'];
                u2(&mut p, one as usize);
                let d = self.utf8("LA;");
                let nm = self.utf8("v");
                let mode = self.r.below(3);
                for _ in 0..n {
                    let mut q: B = vec![];
                    if mode == 0 || mode == 1 && self.r.one_in(2) {
                        q.push(b'[');
                        u2(&mut q, 1);
                    } else {
                        q.push(b'@');
                        u2(&mut q, d as usize);
                        u2(&mut q, 1);
                        u2(&mut q, nm as usize);
                    }
                    q.extend(p);
                    p = q;
                }
                u2(b, 1);
                if self.r.one_in(2) {
                    let a = self.utf8("AnnotationDefault");
                    u2(b, a as usize);
                    u4(b, p.len());
                } else {
                    let a = self.utf8("RuntimeVisibleAnnotations");
                    u2(b, a as usize);
                    u4(b, p.len() + 8);
                    u2(b, 1);
                    u2(b, d as usize);
                    u2(b, 1);
                    u2(b, nm as usize);
                }
                b.extend(p);
            }
        }
    }
    pub fn class_file(&mut self) -> Vec<u8> {
        let is_mod = match self.one_attr {
            Some(a) if a.starts_with("Module") => self.r.one_in(3),
            _ => self.r.one_in(30),
        };
        if is_mod && self.major < 53 && !self.bad() {
            self.major = 61;
        }
        let mut body: B = vec![];
        let mut flags = self.n2() & 0x7fff;
        if self.r.one_in(2) {
            flags = *self.r.pick(&[0x21, 0x20, 0x601, 0x31, 0x4021, 0x2601]);
        }
        if is_mod {
            flags = if self.bad() { 0x8000 | flags } else { 0x8000 | if self.r.one_in(3) { flags & !0x7631 } else { 0 } };
        } else if self.bad() {
            flags |= 0x8000;
        }
        self.iface = flags & 0x200 != 0;
        u2(&mut body, flags);
        let this = self.class();
        self.w(&mut body, this);
        if is_mod && !self.bad() {
            u2(&mut body, 0);
        } else {
            self.w_class_opt(&mut body);
        }
        if is_mod && !self.bad() {
            body.extend([0, 0]);
        } else {
            let n = if self.r.one_in(3) { self.count() } else { 0 };
            let l = self.lie(n);
            u2(&mut body, l);
            for _ in 0..n {
                self.w_class(&mut body);
            }
        }
        // some junk nobody refers to
        let junk = if self.r.one_in(2) { self.r.below(4) } else { 0 };
        for _ in 0..junk {
            if self.major >= 55 {
                self.any_new();
            } else {
                match self.r.below(6) {
                    0 => self.int(),
                    1 => self.long(),
                    2 => self.field(),
                    3 => self.imethod(),
                    4 => self.string(),
                    _ => self.text(),
                };
            }
        }
        // fields
        let members = |g: &mut Self, body: &mut B, meth: bool| {
            let n = if is_mod && !g.bad() { 0 } else if g.r.one_in(3) { g.count() } else { g.r.below(2) };
            let l = g.lie(n);
            u2(body, l);
            let mut seen: Vec<(String, String)> = vec![];
            for _ in 0..n {
                let mut tries = 0;
                let (nm, d) = loop {
                    let mut nm = if meth {
                        match g.r.below(14) {
                            0 if !g.iface => "<init>".to_string(),
                            1 => "<clinit>".to_string(),
                            2 if g.bad() => "<init>".to_string(),
                            _ => g.fname(),
                        }
                    } else {
                        g.fname()
                    };
                    let mut d = if !meth {
                        g.fdesc()
                    } else if nm == "<clinit>" && !g.bad() {
                        if g.major < 51 {
                            g.mdesc(true)
                        } else {
                            "()V".into()
                        }
                    } else {
                        let v = nm == "<init>" && !g.bad();
                        g.mdesc(v)
                    };
                    // share one half with an earlier member
                    if !seen.is_empty() && g.r.one_in(2) {
                        let (a, c) = g.r.pick(&seen).clone();
                        if g.r.one_in(2) && a != "<clinit>" && a != "<init>" {
                            nm = a
                        } else if nm != "<clinit>" && nm != "<init>" {
                            d = c
                        }
                    }
                    // ... and be all but the same in the other
                    if !seen.is_empty() && g.r.one_in(6) {
                        let (a, c) = g.r.pick(&seen).clone();
                        if a != "<clinit>" && a != "<init>" {
                            if g.r.one_in(2) {
                                (nm, d) = (g.slight(&a), c)
                            } else {
                                (nm, d) = (a, g.slight_type(&c))
                            }
                        }
                    }
                    if !seen.contains(&(nm.clone(), d.clone())) || g.bad() {
                        break (nm, d);
                    }
                    tries += 1;
                    if tries > 20 {
                        break (format!("u{}", g.r.next()), d);
                    }
                };
                seen.push((nm.clone(), d.clone()));
                g.v2(body);
                g.w_str(body, &nm);
                g.w_str(body, &d);
                if g.r.one_in(150) {
                    g.depth = 1;
                    g.deep(body);
                    g.depth = 0;
                } else {
                    g.depth = 1;
                    let code = meth && g.r.one_in(2);
                    g.attrs(body, if code { &["Code"] } else { &[] });
                    g.depth = 0;
                }
            }
        };
        members(self, &mut body, false);
        members(self, &mut body, true);
        if self.r.one_in(60) {
            self.deep(&mut body);
        } else {
            let need = self.bsm_max >= 0 && !self.bad();
            let at = body.len();
            let mut must = if need { vec!["BootstrapMethods"] } else { vec![] };
            if is_mod && !self.r.one_in(3) {
                must.push("Module");
            }
            self.attrs(&mut body, &must);
            if !need && self.bsm_max >= 0 && self.fault == 0 {
                // entries that need a table were added only now
                body.truncate(at);
                self.attrs(&mut body, &["BootstrapMethods"]);
            }
        }
        // assemble
        let mut out: B = vec![];
        let magic = if self.bad() { self.num(4) as usize } else { 0xcafebabe };
        u4(&mut out, magic);
        let minor = *self.r.pick(&[0, 0, 3, 0xffff]);
        u2(&mut out, minor);
        let mut major = self.major;
        if self.r.one_in(8) {
            // content made for one version under another's number
            major = match self.r.below(4) {
                0 => major.wrapping_add(1),
                1 => major.wrapping_sub(1),
                _ => 43 + self.r.below(15) as u16,
            };
        }
        u2(&mut out, major as usize);
        let n = self.lie(self.cp.len());
        u2(&mut out, n);
        let cp = std::mem::take(&mut self.cp);
        for (_, b) in &cp {
            if !b.is_empty() {
                self.fields.push((out.len(), 1));
                match b[0] {
                    1 => self.fields.push((out.len() + 1, 2)),
                    3 | 4 => self.fields.push((out.len() + 1, 4)),
                    5 | 6 => self.fields.push((out.len() + 1, 8)),
                    15 => {
                        self.fields.push((out.len() + 1, 1));
                        self.fields.push((out.len() + 2, 2));
                    }
                    _ => {
                        self.fields.push((out.len() + 1, 2));
                        if b.len() > 3 {
                            self.fields.push((out.len() + 3, 2));
                        }
                    }
                }
                let mut b = b.clone();
                if self.bad() {
                    b[0] = if self.r.one_in(2) { self.n1() as u8 } else { 1 + self.r.below(21) as u8 };
                }
                out.extend(b);
            }
        }
        self.cp = cp;
        let start = out.len();
        out.extend(body);
        for i in (start..out.len()).step_by(2) {
            self.fields.push((i, 2));
        }
        out
    }

    /// One input: a generated class, possibly mutated.
    pub fn input(&mut self, seeds: &[Vec<u8>]) -> Vec<u8> {
        let mut v = if !seeds.is_empty() && self.r.one_in(40) { self.r.pick(seeds).clone() } else { self.class_file() };
        match self.r.below(10) {
            0..=5 => {}
            6 => {
                // truncate or extend
                if self.r.one_in(2) {
                    let n = if self.r.one_in(2) { v.len().saturating_sub(1 + self.r.below(9)) } else { self.r.below(v.len() + 1) };
                    v.truncate(n);
                } else {
                    for _ in 0..1 + self.r.below(3) {
                        v.push(self.r.next() as u8);
                    }
                }
            }
            7 => {
                // a recorded field
                for _ in 0..1 + self.r.below(2) {
                    if self.fields.is_empty() {
                        break;
                    }
                    let f = self.fields.clone();
                    let (p, w) = *self.r.pick(&f);
                    if p + w > v.len() {
                        continue;
                    }
                    let mut cur = 0u64;
                    for i in 0..w {
                        cur = cur << 8 | v[p + i] as u64;
                    }
                    let n = match self.r.below(4) {
                        0 => cur.wrapping_add(1),
                        1 => cur.wrapping_sub(1),
                        2 => 0,
                        _ => self.num(w),
                    };
                    for i in 0..w {
                        v[p + i] = (n >> (8 * (w - 1 - i))) as u8;
                    }
                }
            }
            8 => {
                for _ in 0..1 + self.r.below(3) {
                    if v.is_empty() {
                        break;
                    }
                    // favour the tail: the pool takes up most of the front
                    let at = if self.r.one_in(2) { self.r.below(v.len()) } else { v.len() - 1 - self.r.below(v.len().min(40)) };
                    v[at] = self.n1() as u8;
                }
            }
            _ => {
                if v.len() > 12 {
                    let at = v.len() - 1 - self.r.below(v.len().min(60) - 1);
                    if self.r.one_in(2) {
                        v.remove(at);
                    } else {
                        v.insert(at, self.r.next() as u8);
                    }
                }
            }
        }
        v
    }
}
