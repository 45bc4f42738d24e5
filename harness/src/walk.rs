// Included twice (for /repo's crate and for the reference): writes down everything the public API
// shows of a parsed class, sorted into sections by the property they speak about.
use crate::obs::*;
use std::borrow::Cow;

pub struct W<'b> {
    base: &'b [u8],
    pub o: Obs,
}

macro_rules! p { ($w:expr, $t:expr, $($a:tt)*) => {{ use std::fmt::Write as _; let _ = write!($w.o.b[$t], $($a)*); }}; }

impl<'b> W<'b> {
    fn place(&mut self, p: *const u8, len: usize, what: char) {
        let (b, e) = (self.base.as_ptr() as usize, self.base.as_ptr() as usize + self.base.len());
        let q = p as usize;
        if len == 0 {
            p!(self, BORROW, "{}e ", what);
        } else if q >= b && q + len <= e {
            p!(self, BORROW, "{}{} ", what, q - b);
        } else {
            p!(self, BORROW, "{}? ", what);
        }
    }
    fn cow(&mut self, t: usize, c: &Cow<str>) {
        p!(self, t, "{:?} ", &**c);
        match c {
            Cow::Borrowed(s) => self.place(s.as_ptr(), s.len(), 'b'),
            Cow::Owned(_) => p!(self, BORROW, "o "),
        }
    }
    fn ocow(&mut self, t: usize, c: &Option<Cow<str>>) {
        match c {
            None => p!(self, t, "none "),
            Some(c) => self.cow(t, c),
        }
    }
    fn raw(&mut self, t: usize, c: &[u8]) {
        p!(self, t, "{:?} ", c);
        self.place(c.as_ptr(), c.len(), 'r');
    }
    fn cname(&mut self, t: usize, c: &k::descriptors::ClassName) {
        p!(self, t, "{:?} ", &**c);
        p!(self, DISP, "{} ", c);
        let cc: Cow<str> = c.clone().into();
        match &cc {
            Cow::Borrowed(s) => self.place(s.as_ptr(), s.len(), 'b'),
            Cow::Owned(_) => p!(self, BORROW, "o "),
        }
    }
    fn ft(&mut self, t: usize, d: &k::descriptors::FieldType) {
        use k::descriptors::FieldType::*;
        match d {
            Byte => p!(self, t, "byte "),
            Char => p!(self, t, "char "),
            Double => p!(self, t, "double "),
            Float => p!(self, t, "float "),
            Integer => p!(self, t, "int "),
            Long => p!(self, t, "long "),
            Short => p!(self, t, "short "),
            Boolean => p!(self, t, "bool "),
            Object(c) => self.cname(t, c),
        }
        p!(self, DISP, "{} ", d);
    }
    fn fd(&mut self, t: usize, d: &k::descriptors::FieldDescriptor) {
        let c = d.clone();
        p!(self, DISP, "{} ", c == *d);
        let d = &c;
        p!(self, t, "[{} ", d.dimensions);
        self.ft(t, &d.field_type);
        if t != DESC {
            self.fd_only(d);
        }
        p!(self, DISP, "{} ", d);
    }
    fn fd_only(&mut self, d: &k::descriptors::FieldDescriptor) {
        p!(self, DESC, "{} {:?}", d.dimensions, d.field_type);
    }
    fn md(&mut self, t: usize, d: &k::descriptors::MethodDescriptor) {
        let c = d.clone();
        p!(self, DISP, "{} ", c == *d);
        for w in d.parameters.windows(2).take(8) {
            p!(self, DISP, "{} ", w[0] == w[1]);
        }
        let d = &c;
        p!(self, t, "({} ", d.parameters.len());
        for x in &d.parameters {
            self.fd(t, x);
        }
        match &d.return_type {
            k::descriptors::ReturnDescriptor::Void => p!(self, t, "void "),
            k::descriptors::ReturnDescriptor::Return(x) => self.fd(t, x),
        }
        p!(self, DISP, "{} {} ", d.return_type, d);
    }
    fn nat(&mut self, t: usize, n: &k::constant_pool::NameAndType) {
        let n = &n.clone();
        self.cow(t, &n.name);
        self.cow(t, &n.descriptor);
    }
    fn mref(&mut self, t: usize, n: &k::constant_pool::MemberRef) {
        let n = &n.clone();
        self.cow(t, &n.class_name);
        self.nat(t, &n.name_and_type);
    }
    fn lit(&mut self, t: usize, n: &k::constant_pool::LiteralConstant) {
        let n = &n.clone();
        use k::constant_pool::LiteralConstant::*;
        match n {
            Integer(x) => p!(self, t, "I{} ", x),
            Float(x) => p!(self, t, "F{:x} ", x.to_bits()),
            Long(x) => p!(self, t, "J{} ", x),
            Double(x) => p!(self, t, "D{:x} ", x.to_bits()),
            String(x) => {
                p!(self, t, "S");
                self.cow(t, x)
            }
            StringBytes(x) => {
                p!(self, t, "B");
                self.raw(t, x)
            }
        }
    }
    fn mh(&mut self, t: usize, n: &k::constant_pool::MethodHandle) {
        let n = &n.clone();
        p!(self, t, "mh {:?} {:?} ", n.kind, n.member_kind);
        self.cow(t, &n.class_name);
        self.nat(t, &n.member_ref);
    }
    fn dynam(&mut self, t: usize, n: &k::constant_pool::Dynamic) {
        let n = &n.clone();
        p!(self, t, "dyn {} ", n.attr_index);
        self.nat(t, &n.name_and_type);
    }
    fn indy(&mut self, t: usize, n: &k::constant_pool::InvokeDynamic) {
        let n = &n.clone();
        p!(self, t, "indy {} ", n.attr_index);
        self.nat(t, &n.name_and_type);
    }
    fn oat(&mut self, t: usize, n: &k::constant_pool::ObjectArrayType) {
        let n = &n.clone();
        match n {
            k::constant_pool::ObjectArrayType::ArrayType(d) => {
                p!(self, t, "arr ");
                self.fd(t, d)
            }
            k::constant_pool::ObjectArrayType::BinaryName(c) => {
                p!(self, t, "bin ");
                self.cow(t, c)
            }
        }
    }
    fn item(&mut self, n: &k::constant_pool::ConstantPoolItem) {
        use k::constant_pool::ConstantPoolItem::*;
        let t = POOL;
        match n {
            LiteralConstant(x) => self.lit(t, x),
            ClassInfo(x) => {
                p!(self, t, "class ");
                self.cow(t, x)
            }
            FieldRef(x) => {
                p!(self, t, "field ");
                self.mref(t, x)
            }
            MethodRef(x) => {
                p!(self, t, "method ");
                self.mref(t, x)
            }
            InterfaceMethodRef(x) => {
                p!(self, t, "imethod ");
                self.mref(t, x)
            }
            NameAndType(x) => {
                p!(self, t, "nat ");
                self.nat(t, x)
            }
            MethodHandle(x) => self.mh(t, x),
            MethodType(x) => {
                p!(self, t, "mtype ");
                self.cow(t, x)
            }
            Dynamic(x) => self.dynam(t, x),
            InvokeDynamic(x) => self.indy(t, x),
            ModuleInfo(x) => {
                p!(self, t, "module ");
                self.cow(t, x)
            }
            PackageInfo(x) => {
                p!(self, t, "package ");
                self.cow(t, x)
            }
        }
        p!(self, t, "\n");
    }
    fn loadable(&mut self, t: usize, n: &k::constant_pool::Loadable) {
        use k::constant_pool::Loadable::*;
        match n {
            LiteralConstant(x) => self.lit(t, x),
            ClassInfo(x) => {
                p!(self, t, "class ");
                self.cow(t, x)
            }
            MethodHandle(x) => self.mh(t, x),
            MethodType(x) => {
                p!(self, t, "mtype ");
                self.cow(t, x)
            }
            Dynamic(x) => self.dynam(t, x),
        }
    }
    fn barg(&mut self, t: usize, n: &k::constant_pool::BootstrapArgument) {
        use k::constant_pool::BootstrapArgument::*;
        match n {
            LiteralConstant(x) => self.lit(t, x),
            ClassInfo(x) => {
                p!(self, t, "class ");
                self.cow(t, x)
            }
            MethodHandle(x) => self.mh(t, x),
            MethodType(x) => {
                p!(self, t, "mtype ");
                self.cow(t, x)
            }
        }
    }
    fn jump(&mut self, at: usize, j: i32) {
        p!(self, CODE, "j{} ", j);
        p!(self, JUMP, "{}>{} ", at, j);
    }
    fn opcode(&mut self, at: usize, op: &k::bytecode::Opcode) {
        use k::bytecode::Opcode::*;
        let op = &op.clone();
        p!(self, CODE, "{}:", at);
        match op {
            Anewarray(x) => {
                p!(self, CODE, "anewarray ");
                self.oat(CODE, x)
            }
            Checkcast(x) => {
                p!(self, CODE, "checkcast ");
                self.oat(CODE, x)
            }
            Instanceof(x) => {
                p!(self, CODE, "instanceof ");
                self.oat(CODE, x)
            }
            Multianewarray(x, d) => {
                p!(self, CODE, "multianewarray {} ", d);
                self.oat(CODE, x)
            }
            Getfield(x) => {
                p!(self, CODE, "getfield ");
                self.mref(CODE, x)
            }
            Getstatic(x) => {
                p!(self, CODE, "getstatic ");
                self.mref(CODE, x)
            }
            Putfield(x) => {
                p!(self, CODE, "putfield ");
                self.mref(CODE, x)
            }
            Putstatic(x) => {
                p!(self, CODE, "putstatic ");
                self.mref(CODE, x)
            }
            Invokespecial(x) => {
                p!(self, CODE, "invokespecial ");
                self.mref(CODE, x)
            }
            Invokestatic(x) => {
                p!(self, CODE, "invokestatic ");
                self.mref(CODE, x)
            }
            Invokevirtual(x) => {
                p!(self, CODE, "invokevirtual ");
                self.mref(CODE, x)
            }
            Invokeinterface(x, n) => {
                p!(self, CODE, "invokeinterface {} ", n);
                self.mref(CODE, x)
            }
            Invokedynamic(x) => {
                p!(self, CODE, "invokedynamic ");
                self.indy(CODE, x)
            }
            Ldc(x) => {
                p!(self, CODE, "ldc ");
                self.loadable(CODE, x)
            }
            LdcW(x) => {
                p!(self, CODE, "ldc_w ");
                self.loadable(CODE, x)
            }
            Ldc2W(x) => {
                p!(self, CODE, "ldc2_w ");
                self.loadable(CODE, x)
            }
            New(x) => {
                p!(self, CODE, "new ");
                self.cow(CODE, x)
            }
            Lookupswitch(x) => {
                p!(self, CODE, "lookupswitch ");
                self.jump(at, x.default);
                for (v, j) in &x.match_offsets {
                    p!(self, CODE, "{}=>", v);
                    self.jump(at, *j);
                }
            }
            Tableswitch(x) => {
                p!(self, CODE, "tableswitch {} {} ", x.low, x.high);
                self.jump(at, x.default);
                for j in &x.jumps {
                    self.jump(at, *j);
                }
            }
            Goto(j) | IfAcmpeq(j) | IfAcmpne(j) | IfIcmpeq(j) | IfIcmpge(j) | IfIcmpgt(j) | IfIcmple(j) | IfIcmplt(j)
            | IfIcmpne(j) | Ifeq(j) | Ifge(j) | Ifgt(j) | Ifle(j) | Iflt(j) | Ifne(j) | Ifnonnull(j) | Ifnull(j) | Jsr(j) => {
                p!(self, CODE, "{:?}", op);
                self.jump(at, *j);
            }
            // the rest carry plain numbers only
            other => p!(self, CODE, "{:?}", other),
        }
        p!(self, CODE, "\n");
    }
    fn code(&mut self, c: &k::attributes::CodeData) {
        p!(self, ATTR, "code {} {} ", c.max_stack, c.max_locals);
        self.raw(ATTR, c.code);
        for e in &c.exception_table {
            p!(self, ATTR, "ex {} {} {} ", e.start_pc, e.end_pc, e.handler_pc);
            self.ocow(ATTR, &e.catch_type);
        }
        match &c.bytecode {
            None => p!(self, CODE, "none "),
            Some(b) => {
                let mut last = 0;
                for (at, op) in &b.opcodes {
                    self.opcode(*at, op);
                    last = *at;
                }
                p!(self, JUMP, "look ");
                let n = c.code.len();
                if n <= 80 {
                    for q in 0..n + 3 {
                        p!(self, JUMP, "{:?} ", b.get_opcode_index(q));
                    }
                } else {
                    for (at, _) in &b.opcodes {
                        p!(self, JUMP, "{:?} {:?} ", b.get_opcode_index(*at), b.get_opcode_index(*at + 1));
                    }
                }
                for q in [last + 1, last + 2, n, usize::MAX, usize::MAX / 2, 1 << 32, 1 << 31] {
                    p!(self, JUMP, "{:?} ", b.get_opcode_index(q));
                }
                p!(self, JUMP, "\n");
            }
        }
        self.attrs(&c.attributes);
    }
    fn vt(&mut self, v: &k::attributes::VerificationType) {
        match v {
            k::attributes::VerificationType::Object { class_name } => {
                p!(self, ATTR, "obj ");
                self.cow(ATTR, class_name)
            }
            other => p!(self, ATTR, "{:?} ", other),
        }
    }
    fn ev(&mut self, v: &k::attributes::AnnotationElementValue) {
        use k::attributes::AnnotationElementValue::*;
        match v {
            DoubleConstant(x) => p!(self, ATTR, "d{:x} ", x.to_bits()),
            FloatConstant(x) => p!(self, ATTR, "f{:x} ", x.to_bits()),
            StringConstant(x) => {
                p!(self, ATTR, "s ");
                self.cow(ATTR, x)
            }
            EnumConstant { type_name, const_name } => {
                p!(self, ATTR, "e ");
                self.fd(ATTR, type_name);
                self.cow(ATTR, const_name)
            }
            ClassLiteral { class_name } => {
                p!(self, ATTR, "c ");
                self.cow(ATTR, class_name)
            }
            AnnotationValue(a) => self.ann(a),
            ArrayValue(a) => {
                p!(self, ATTR, "[{} ", a.len());
                for x in a {
                    self.ev(x);
                }
                p!(self, ATTR, "] ");
            }
            other => p!(self, ATTR, "{:?} ", other),
        }
    }
    fn ann(&mut self, a: &k::attributes::Annotation) {
        p!(self, ATTR, "@{{ ");
        self.fd(ATTR, &a.type_descriptor);
        for e in &a.elements {
            self.cow(ATTR, &e.name);
            self.ev(&e.value);
        }
        p!(self, ATTR, "}} ");
    }
    fn cows(&mut self, v: &[Cow<str>]) {
        p!(self, ATTR, "#{} ", v.len());
        for c in v {
            self.cow(ATTR, c);
        }
    }
    fn attrs(&mut self, v: &[k::attributes::AttributeInfo]) {
        p!(self, ATTR, "attrs {} ", v.len());
        for a in v {
            self.attr(a);
        }
    }
    fn attr(&mut self, a: &k::attributes::AttributeInfo) {
        use k::attributes::AttributeData::*;
        self.cow(ATTR, &a.name);
        match &a.data {
            ConstantValue(x) => {
                p!(self, ATTR, "ConstantValue ");
                self.lit(ATTR, x)
            }
            Code(c) => self.code(c),
            StackMapTable(v) => {
                p!(self, ATTR, "StackMapTable ");
                for f in v {
                    use k::attributes::StackMapEntry::*;
                    match f {
                        Same { offset_delta } => p!(self, ATTR, "same {} ", offset_delta),
                        SameLocals1StackItem { offset_delta, stack } => {
                            p!(self, ATTR, "same1 {} ", offset_delta);
                            self.vt(stack)
                        }
                        Chop { offset_delta, chop_count } => p!(self, ATTR, "chop {} {} ", offset_delta, chop_count),
                        Append { offset_delta, locals } => {
                            p!(self, ATTR, "append {} ", offset_delta);
                            for x in locals {
                                self.vt(x);
                            }
                        }
                        FullFrame { offset_delta, locals, stack } => {
                            p!(self, ATTR, "full {} ", offset_delta);
                            for x in locals {
                                self.vt(x);
                            }
                            p!(self, ATTR, "/ ");
                            for x in stack {
                                self.vt(x);
                            }
                        }
                    }
                }
            }
            Exceptions(v) => {
                p!(self, ATTR, "Exceptions ");
                self.cows(v)
            }
            InnerClasses(v) => {
                p!(self, ATTR, "InnerClasses ");
                for e in v {
                    self.cow(ATTR, &e.inner_class_info);
                    self.ocow(ATTR, &e.outer_class_info);
                    self.ocow(ATTR, &e.inner_name);
                    p!(self, ATTR, "{:x} {:?} ", e.access_flags.bits(), e.access_flags);
                }
            }
            EnclosingMethod { class_name, method } => {
                p!(self, ATTR, "EnclosingMethod ");
                self.cow(ATTR, class_name);
                match method {
                    None => p!(self, ATTR, "none "),
                    Some(n) => self.nat(ATTR, n),
                }
            }
            Synthetic => p!(self, ATTR, "Synthetic "),
            Signature(s) => {
                p!(self, ATTR, "Signature ");
                self.cow(ATTR, s)
            }
            SourceFile(s) => {
                p!(self, ATTR, "SourceFile ");
                self.cow(ATTR, s)
            }
            SourceDebugExtension(s) => {
                p!(self, ATTR, "SourceDebugExtension ");
                self.cow(ATTR, s)
            }
            LineNumberTable(v) => {
                for e in v {
                    p!(self, ATTR, "line {} {} ", e.start_pc, e.line_number);
                }
            }
            LocalVariableTable(v) => {
                for e in v {
                    p!(self, ATTR, "var {} {} {} ", e.start_pc, e.length, e.index);
                    self.cow(ATTR, &e.name);
                    self.fd(ATTR, &e.descriptor);
                }
            }
            LocalVariableTypeTable(v) => {
                for e in v {
                    p!(self, ATTR, "vart {} {} {} ", e.start_pc, e.length, e.index);
                    self.cow(ATTR, &e.name);
                    self.cow(ATTR, &e.signature);
                }
            }
            Deprecated => p!(self, ATTR, "Deprecated "),
            RuntimeVisibleAnnotations(v) => {
                p!(self, ATTR, "RVA ");
                for a in v {
                    self.ann(a);
                }
            }
            RuntimeInvisibleAnnotations(v) => {
                p!(self, ATTR, "RIA ");
                for a in v {
                    self.ann(a);
                }
            }
            RuntimeVisibleParameterAnnotations(v) => {
                p!(self, ATTR, "RVPA ");
                for a in v {
                    p!(self, ATTR, "par {} ", a.annotations.len());
                    for a in &a.annotations {
                        self.ann(a);
                    }
                }
            }
            RuntimeInvisibleParameterAnnotations(v) => {
                p!(self, ATTR, "RIPA ");
                for a in v {
                    p!(self, ATTR, "par {} ", a.annotations.len());
                    for a in &a.annotations {
                        self.ann(a);
                    }
                }
            }
            RuntimeVisibleTypeAnnotations(v) => {
                p!(self, ATTR, "RVTA ");
                for a in v {
                    p!(self, ATTR, "{:?} {:?} ", a.target_type, a.target_path);
                    self.ann(&a.annotation);
                }
            }
            RuntimeInvisibleTypeAnnotations(v) => {
                p!(self, ATTR, "RITA ");
                for a in v {
                    p!(self, ATTR, "{:?} {:?} ", a.target_type, a.target_path);
                    self.ann(&a.annotation);
                }
            }
            AnnotationDefault(v) => {
                p!(self, ATTR, "AnnotationDefault ");
                self.ev(v)
            }
            BootstrapMethods(v) => {
                p!(self, ATTR, "BootstrapMethods ");
                for e in v {
                    self.mh(ATTR, &e.method);
                    p!(self, ATTR, "args {} ", e.arguments.len());
                    for a in &e.arguments {
                        self.barg(ATTR, a);
                    }
                }
            }
            MethodParameters(v) => {
                for e in v {
                    p!(self, ATTR, "mparam {:x} {:?} ", e.access_flags.bits(), e.access_flags);
                    self.ocow(ATTR, &e.name);
                }
            }
            Module(m) => {
                p!(self, ATTR, "Module {:x} {:?} ", m.access_flags.bits(), m.access_flags);
                self.cow(ATTR, &m.name);
                self.ocow(ATTR, &m.version);
                for r in &m.requires {
                    p!(self, ATTR, "req {:x} {:?} ", r.flags.bits(), r.flags);
                    self.cow(ATTR, &r.name);
                    self.ocow(ATTR, &r.version);
                }
                for r in &m.exports {
                    p!(self, ATTR, "exp {:x} {:?} ", r.flags.bits(), r.flags);
                    self.cow(ATTR, &r.package_name);
                    self.cows(&r.exports_to);
                }
                for r in &m.opens {
                    p!(self, ATTR, "open {:x} {:?} ", r.flags.bits(), r.flags);
                    self.cow(ATTR, &r.package_name);
                    self.cows(&r.opens_to);
                }
                self.cows(&m.uses);
                for r in &m.provides {
                    p!(self, ATTR, "prov ");
                    self.cow(ATTR, &r.service_interface_name);
                    self.cows(&r.provides_with);
                }
            }
            ModulePackages(v) => {
                p!(self, ATTR, "ModulePackages ");
                self.cows(v)
            }
            ModuleMainClass(s) => {
                p!(self, ATTR, "ModuleMainClass ");
                self.cow(ATTR, s)
            }
            NestHost(s) => {
                p!(self, ATTR, "NestHost ");
                self.cow(ATTR, s)
            }
            NestMembers(v) => {
                p!(self, ATTR, "NestMembers ");
                self.cows(v)
            }
            PermittedSubclasses(v) => {
                p!(self, ATTR, "PermittedSubclasses ");
                self.cows(v)
            }
            Record(v) => {
                for e in v {
                    p!(self, ATTR, "comp ");
                    self.cow(ATTR, &e.name);
                    self.fd(ATTR, &e.descriptor);
                    self.attrs(&e.attributes);
                }
            }
            Other(b) => {
                p!(self, ATTR, "Other ");
                self.raw(ATTR, b)
            }
        }
        p!(self, ATTR, "\n");
    }
    fn class(&mut self, c: &k::ClassFile) {
        p!(self, HEAD, "{} {} {:x} {:?} ", c.major_version, c.minor_version, c.access_flags.bits(), c.access_flags);
        self.cname(HEAD, &c.this_class);
        match &c.super_class {
            None => p!(self, HEAD, "nosuper "),
            Some(s) => self.cname(HEAD, s),
        }
        p!(self, HEAD, "interfaces {} ", c.interfaces.len());
        for i in &c.interfaces {
            self.cname(HEAD, i);
        }
        for w in c.fields.windows(2).take(8) {
            p!(self, DISP, "{} ", w[0].descriptor == w[1].descriptor);
        }
        p!(self, HEAD, "fields {} ", c.fields.len());
        for f in &c.fields {
            p!(self, HEAD, "{:x} {:?} ", f.access_flags.bits(), f.access_flags);
            self.cow(HEAD, &f.name);
            self.fd(HEAD, &f.descriptor);
            self.attrs(&f.attributes);
        }
        for w in c.methods.windows(2).take(8) {
            p!(self, DISP, "{} ", w[0].descriptor == w[1].descriptor);
        }
        p!(self, HEAD, "methods {} ", c.methods.len());
        for f in &c.methods {
            p!(self, HEAD, "{:x} {:?} ", f.access_flags.bits(), f.access_flags);
            self.cow(HEAD, &f.name);
            self.md(HEAD, &f.descriptor);
            self.attrs(&f.attributes);
        }
        self.attrs(&c.attributes);
    }
}

/// Parse and write down. Err carries the parser's message.
pub fn observe(bytes: &[u8], parse_bytecode: bool, how: u8) -> Result<Obs, String> {
    PHASE.with(|p| p.set("parse"));
    let r = if how == 0 {
        k::parse_class(bytes)
    } else {
        let mut o = k::ParseOptions::default();
        if how == 2 {
            o.parse_bytecode(!parse_bytecode);
        }
        o.parse_bytecode(parse_bytecode);
        k::parse_class_with_options(bytes, &o)
    };
    let c = match r {
        Ok(c) => c,
        Err(e) => return Err(e.to_string()),
    };
    let mut w = W { base: bytes, o: Obs::default() };
    PHASE.with(|p| p.set("walk"));
    w.class(&c);
    PHASE.with(|p| p.set("iterate"));
    let mut it = c.constantpool_iter();
    let mut n = 0;
    while let Some(x) = it.next() {
        w.item(&x);
        n += 1;
        if n > 70_000 {
            p!(w, POOL, "endless");
            break;
        }
    }
    if it.next().is_some() {
        p!(w, POOL, "restarted");
    }
    // an iterator may answer these in its own way
    let (lo, hi) = c.constantpool_iter().size_hint();
    let cnt = c.constantpool_iter().count();
    let fold = c.constantpool_iter().fold(0, |a, _| a + 1);
    let fits = lo <= n && hi.map_or(true, |h| n <= h);
    p!(w, POOL, "count {} {} {} last ", cnt, fold, fits);
    if let Some(x) = c.constantpool_iter().last() {
        w.item(&x);
    }
    for (a, b) in [(0, 0), (n / 3, 1), (n / 2, n / 4), (1, n)] {
        let mut it = c.constantpool_iter();
        for k in [a, b] {
            match it.nth(k) {
                Some(x) => w.item(&x),
                None => p!(w, POOL, "none "),
            }
            let (lo, hi) = it.size_hint();
            let l = it.by_ref().take(3).count();
            p!(w, POOL, "{} {} ", l, hi.map_or(true, |h| l <= h) && (l == 3 || lo <= l));
        }
        p!(w, POOL, "rest {} ", it.count());
    }
    let mut it = c.constantpool_iter().skip(n / 2).step_by(2);
    if let Some(x) = it.find(|_| true) {
        w.item(&x);
    }
    p!(w, POOL, "{} ", it.map(|_| 1).sum::<usize>());
    PHASE.with(|p| p.set("drop"));
    Ok(w.o)
}

/// ClassName::try_from on a string given on its own.
pub fn class_name(s: &str, owned: bool) -> Option<String> {
    use std::convert::TryFrom;
    let c: Cow<str> = if owned { Cow::Owned(s.to_string()) } else { Cow::Borrowed(s) };
    match k::descriptors::ClassName::try_from(c) {
        Ok(n) => {
            let d: &str = &n;
            let t = format!("{:?} {:?}", d, n.to_string());
            let back: Cow<str> = n.into();
            Some(format!("{} {:?} {}", t, back, matches!(back, Cow::Borrowed(_))))
        }
        Err(_) => None,
    }
}
