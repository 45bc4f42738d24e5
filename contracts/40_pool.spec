// ---- C05/C06: the constant pool (JVMS 4.4). A pool is described by its flat entries: what the bytes
// of the class file say, references being constant pool indexes.
pub enum FEntry<'a> {
  Zero, Utf8(Cow<'a, str>), Utf8Bytes(&'a [u8]), Integer(i32), Float(f32), Long(i64), Double(f64),
  ClassInfo(u16), Str(u16), FieldRef(u16, u16), MethodRef(u16, u16), InterfaceMethodRef(u16, u16), NameAndType(u16, u16),
  MethodHandle(ReferenceKind, u16), MethodType(u16), Dynamic(u16, u16), InvokeDynamic(u16, u16), ModuleInfo(u16), PackageInfo(u16), Unused,
}
spec fn s_ref_kind(k: u8) -> Option<ReferenceKind> {
  if k == 1 { Some(ReferenceKind::GetField) } else if k == 2 { Some(ReferenceKind::GetStatic) } else if k == 3 { Some(ReferenceKind::PutField) }
  else if k == 4 { Some(ReferenceKind::PutStatic) } else if k == 5 { Some(ReferenceKind::InvokeVirtual) } else if k == 6 { Some(ReferenceKind::InvokeStatic) }
  else if k == 7 { Some(ReferenceKind::InvokeSpecial) } else if k == 8 { Some(ReferenceKind::NewInvokeSpecial) } else if k == 9 { Some(ReferenceKind::InvokeInterface) } else { None }
}
spec fn s_e_utf8<'a>(b: Seq<u8>, ix: int) -> Option<(FEntry<'a>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  require ix + n as int <= b.len();
  let data = b.subrange(ix, ix + n as int);
  Some((match cesu8::decode(data) { Some(c) => FEntry::Utf8(c), None => FEntry::Utf8Bytes(slice_of(data)) }, ix + n as int))
}
spec fn s_e_integer<'a>(b: Seq<u8>, ix: int) -> Option<(FEntry<'a>, int)> { let (v, ix) = s_u4(b, ix)?;
  Some((FEntry::Integer(v as i32), ix)) }
spec fn s_e_float<'a>(b: Seq<u8>, ix: int) -> Option<(FEntry<'a>, int)> { let (v, ix) = s_u4(b, ix)?;
  Some((FEntry::Float(f32_of(v)), ix)) }
spec fn s_e_long<'a>(b: Seq<u8>, ix: int) -> Option<(FEntry<'a>, int)> { let (v, ix) = s_u8(b, ix)?;
  Some((FEntry::Long(v as i64), ix)) }
spec fn s_e_double<'a>(b: Seq<u8>, ix: int) -> Option<(FEntry<'a>, int)> { let (v, ix) = s_u8(b, ix)?;
  Some((FEntry::Double(f64_of(v)), ix)) }
spec fn s_e_one<'a>(tag: int, b: Seq<u8>, ix: int) -> Option<(FEntry<'a>, int)> {
  let (x, ix) = s_u2(b, ix)?;
  Some((if tag == 7 { FEntry::ClassInfo(x) } else if tag == 8 { FEntry::Str(x) } else if tag == 16 { FEntry::MethodType(x) } else if tag == 19 { FEntry::ModuleInfo(x) } else { FEntry::PackageInfo(x) }, ix))
}
spec fn s_e_two<'a>(tag: int, b: Seq<u8>, ix: int) -> Option<(FEntry<'a>, int)> {
  let (x, ix) = s_u2(b, ix)?;
  let (y, ix) = s_u2(b, ix)?;
  Some((if tag == 9 { FEntry::FieldRef(x, y) } else if tag == 10 { FEntry::MethodRef(x, y) } else if tag == 11 { FEntry::InterfaceMethodRef(x, y) }
    else if tag == 12 { FEntry::NameAndType(x, y) } else if tag == 17 { FEntry::Dynamic(x, y) } else { FEntry::InvokeDynamic(x, y) }, ix))
}
spec fn s_e_mh<'a>(b: Seq<u8>, ix: int) -> Option<(FEntry<'a>, int)> {
  let (k, ix) = s_u1(b, ix)?;
  let k = s_ref_kind(k)?;
  let (x, ix) = s_u2(b, ix)?;
  Some((FEntry::MethodHandle(k, x), ix))
}
/// one constant pool entry, tag included; the tags that a class file of this version may contain
spec fn s_entry<'a>(b: Seq<u8>, ix: int, mv: u16) -> Option<(FEntry<'a>, int)> {
  let (t, ix) = s_u1(b, ix)?;
  if t == 1 { s_e_utf8(b, ix) } else if t == 3 { s_e_integer(b, ix) } else if t == 4 { s_e_float(b, ix) }
  else if t == 5 { s_e_long(b, ix) } else if t == 6 { s_e_double(b, ix) }
  else if t == 7 || t == 8 { s_e_one(t as int, b, ix) }
  else if t == 9 || t == 10 || t == 11 || t == 12 { s_e_two(t as int, b, ix) }
  else if t == 15 && mv >= 51 { s_e_mh(b, ix) }
  else if t == 16 && mv >= 51 { s_e_one(16, b, ix) }
  else if t == 17 && mv >= 55 { s_e_two(17, b, ix) }
  else if t == 18 && mv >= 51 { s_e_two(18, b, ix) }
  else if (t == 19 || t == 20) && mv >= 53 { s_e_one(t as int, b, ix) }
  else { None }
}
spec fn is_wide(e: FEntry) -> bool { e is Long || e is Double }
/// entries with indexes k..n; a long or double takes two indexes, both of which must exist
spec fn s_entries<'a>(b: Seq<u8>, ix: int, k: int, n: int, mv: u16, acc: Seq<FEntry<'a>>) -> Option<(Seq<FEntry<'a>>, int)> decreases n - k {
  if k >= n { Some((acc, ix)) } else {
    let (e, ix2) = s_entry(b, ix, mv)?;
    if is_wide(e) {
      require k + 1 < n;
      s_entries(b, ix2, k + 2, n, mv, acc.push(e).push(FEntry::Unused))
    } else { s_entries(b, ix2, k + 1, n, mv, acc.push(e)) }
  }
}
// references: kinds of entries
spec fn f_is_utf8(e: FEntry) -> bool { e is Utf8 || e is Utf8Bytes }
spec fn f_is_member(e: FEntry) -> bool { e is FieldRef || e is MethodRef || e is InterfaceMethodRef }
spec fn f_at<'a>(p: Seq<FEntry<'a>>, i: u16) -> FEntry<'a> { p[i as int] }
spec fn f_text(p: Seq<FEntry>, i: u16) -> Option<Seq<char>> { match p[i as int] { FEntry::Utf8(c) => Some(cv(c)), _ => None } }
spec fn f_desc(p: Seq<FEntry>, i: u16) -> Option<Seq<char>> { match p[i as int] { FEntry::NameAndType(_, d) => f_text(p, d), _ => None } }
/// references of entry e exist and are of the right kind
spec fn f_linkable(p: Seq<FEntry>, e: FEntry) -> bool {
  let n = p.len();
  match e {
    FEntry::ClassInfo(x) => x < n && f_is_utf8(p[x as int]),
    FEntry::Str(x) => x < n && f_is_utf8(p[x as int]),
    FEntry::MethodType(x) => x < n && f_is_utf8(p[x as int]),
    FEntry::ModuleInfo(x) => x < n && f_is_utf8(p[x as int]),
    FEntry::PackageInfo(x) => x < n && f_is_utf8(p[x as int]),
    FEntry::MethodHandle(_, x) => x < n && f_is_member(p[x as int]),
    FEntry::Dynamic(_, x) => x < n && p[x as int] is NameAndType,
    FEntry::InvokeDynamic(_, x) => x < n && p[x as int] is NameAndType,
    FEntry::FieldRef(x, y) => x < n && p[x as int] is ClassInfo && y < n && p[y as int] is NameAndType,
    FEntry::MethodRef(x, y) => x < n && p[x as int] is ClassInfo && y < n && p[y as int] is NameAndType,
    FEntry::InterfaceMethodRef(x, y) => x < n && p[x as int] is ClassInfo && y < n && p[y as int] is NameAndType,
    FEntry::NameAndType(x, y) => x < n && f_is_utf8(p[x as int]) && y < n && f_is_utf8(p[y as int]),
    _ => true,
  }
}
spec fn t_fd(t: Option<Seq<char>>) -> bool { match t { Some(s) => s_is_fd(s), None => false } }
spec fn t_md(t: Option<Seq<char>>) -> bool { match t { Some(s) => s_is_md(s), None => false } }
spec fn t_class(t: Option<Seq<char>>) -> bool { match t { Some(s) => s_binary(s) || s_is_array(s), None => false } }
spec fn t_binary(t: Option<Seq<char>>) -> bool { match t { Some(s) => s_binary(s), None => false } }
spec fn t_module(t: Option<Seq<char>>) -> bool { match t { Some(s) => s_module(s), None => false } }
spec fn t_name(t: Option<Seq<char>>) -> bool { match t { Some(s) => s_unqualified(s) || s_method_name(s, true, false), None => false } }
spec fn s_kind_ok(k: ReferenceKind, mv: u16, field: bool, method: bool, imethod: bool) -> bool {
  match k {
    ReferenceKind::GetField | ReferenceKind::GetStatic | ReferenceKind::PutField | ReferenceKind::PutStatic => field,
    ReferenceKind::InvokeVirtual | ReferenceKind::NewInvokeSpecial => method,
    ReferenceKind::InvokeStatic | ReferenceKind::InvokeSpecial => method || (imethod && mv >= 52),
    ReferenceKind::InvokeInterface => imethod,
  }
}
/// the first and second reference of an entry
spec fn ref_a(e: FEntry) -> int {
  match e {
    FEntry::ClassInfo(x) => x as int, FEntry::Str(x) => x as int, FEntry::MethodType(x) => x as int, FEntry::ModuleInfo(x) => x as int, FEntry::PackageInfo(x) => x as int,
    FEntry::MethodHandle(_, x) => x as int, FEntry::Dynamic(_, x) => x as int, FEntry::InvokeDynamic(_, x) => x as int,
    FEntry::FieldRef(x, _) => x as int, FEntry::MethodRef(x, _) => x as int, FEntry::InterfaceMethodRef(x, _) => x as int, FEntry::NameAndType(x, _) => x as int,
    _ => 0,
  }
}
spec fn ref_b(e: FEntry) -> int {
  match e { FEntry::FieldRef(_, y) => y as int, FEntry::MethodRef(_, y) => y as int, FEntry::InterfaceMethodRef(_, y) => y as int, FEntry::NameAndType(_, y) => y as int, _ => 0 }
}
/// what validity needs to know of an entry that is referred to: its text, the text of its descriptor, which kind of member it is
pub struct Info { pub text: Option<Seq<char>>, pub desc: Option<Seq<char>>, pub field: bool, pub method: bool, pub imethod: bool }
spec fn f_info(p: Seq<FEntry>, i: int) -> Info { Info { text: f_text(p, i as u16), desc: f_desc(p, i as u16), field: p[i] is FieldRef, method: p[i] is MethodRef, imethod: p[i] is InterfaceMethodRef } }
/// names, descriptors and reference kinds are well-formed
spec fn v_entry(e: FEntry, mv: u16, a: Info, b: Info) -> bool {
  match e {
    FEntry::ClassInfo(_) => t_class(a.text),
    FEntry::FieldRef(_, _) => t_fd(b.desc),
    FEntry::MethodRef(_, _) => t_md(b.desc),
    FEntry::InterfaceMethodRef(_, _) => t_md(b.desc),
    FEntry::NameAndType(_, _) => t_name(a.text),
    FEntry::MethodHandle(k, _) => s_kind_ok(k, mv, a.field, a.method, a.imethod),
    FEntry::MethodType(_) => t_md(a.text),
    FEntry::Dynamic(_, _) => t_fd(a.desc),
    FEntry::InvokeDynamic(_, _) => t_md(a.desc),
    FEntry::ModuleInfo(_) => t_module(a.text),
    FEntry::PackageInfo(_) => t_binary(a.text),
    _ => true,
  }
}
spec fn f_valid(p: Seq<FEntry>, e: FEntry, mv: u16) -> bool { v_entry(e, mv, f_info(p, ref_a(e)), f_info(p, ref_b(e))) && (e is NameAndType ==> f_text(p, ref_b(e) as u16) is Some) }
spec fn f_all_linkable(p: Seq<FEntry>) -> bool { forall|i: int| 0 <= i < p.len() ==> f_linkable(p, #[trigger] p[i]) }
spec fn f_all_valid(p: Seq<FEntry>, mv: u16) -> bool { forall|i: int| 0 <= i < p.len() ==> f_valid(p, #[trigger] p[i], mv) }
/// the constant pool of a class file: index 0 is reserved
spec fn s_pool<'a>(b: Seq<u8>, ix: int, mv: u16) -> Option<(Seq<FEntry<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (p, ix) = s_entries(b, ix, 1, n as int, mv, seq![FEntry::Zero])?;
  require f_all_linkable(p) && f_all_valid(p, mv);
  Some((p, ix))
}
// ---- values of references, on flat pools
spec fn f_utf8<'a>(p: Seq<FEntry<'a>>, i: u16) -> Cow<'a, str> { p[i as int]->Utf8_0 }
spec fn f_class<'a>(p: Seq<FEntry<'a>>, i: u16) -> Cow<'a, str> { f_utf8(p, p[i as int]->ClassInfo_0) }
spec fn f_nat<'a>(p: Seq<FEntry<'a>>, i: u16) -> NameAndType<'a> { match p[i as int] { FEntry::NameAndType(x, y) => NameAndType { name: f_utf8(p, x), descriptor: f_utf8(p, y) }, _ => arbitrary() } }
spec fn f_member<'a>(p: Seq<FEntry<'a>>, x: u16, y: u16) -> MemberRef<'a> { MemberRef { class_name: f_class(p, x), name_and_type: f_nat(p, y) } }
spec fn f_lit<'a>(p: Seq<FEntry<'a>>, i: u16) -> LiteralConstant<'a> { match p[i as int] { FEntry::Utf8(c) => LiteralConstant::String(c), FEntry::Utf8Bytes(x) => LiteralConstant::StringBytes(x), _ => arbitrary() } }
spec fn f_mh<'a>(p: Seq<FEntry<'a>>, k: ReferenceKind, i: u16) -> MethodHandle<'a> {
  match p[i as int] {
    FEntry::FieldRef(c, m) => MethodHandle { kind: k, class_name: f_class(p, c), member_kind: MemberKind::Field, member_ref: f_nat(p, m) },
    FEntry::MethodRef(c, m) => MethodHandle { kind: k, class_name: f_class(p, c), member_kind: MemberKind::Method, member_ref: f_nat(p, m) },
    FEntry::InterfaceMethodRef(c, m) => MethodHandle { kind: k, class_name: f_class(p, c), member_kind: MemberKind::InterfaceMethod, member_ref: f_nat(p, m) },
    _ => arbitrary(),
  }
}
spec fn f_literal<'a>(p: Seq<FEntry<'a>>, e: FEntry<'a>) -> Option<LiteralConstant<'a>> {
  match e {
    FEntry::Integer(v) => Some(LiteralConstant::Integer(v)), FEntry::Float(v) => Some(LiteralConstant::Float(v)),
    FEntry::Long(v) => Some(LiteralConstant::Long(v)), FEntry::Double(v) => Some(LiteralConstant::Double(v)),
    FEntry::Str(x) => Some(f_lit(p, x)), _ => None,
  }
}
spec fn f_item<'a>(p: Seq<FEntry<'a>>, e: FEntry<'a>) -> Option<ConstantPoolItem<'a>> {
  match e {
    FEntry::Zero => None, FEntry::Utf8(_) => None, FEntry::Utf8Bytes(_) => None, FEntry::Unused => None,
    FEntry::ClassInfo(x) => Some(ConstantPoolItem::ClassInfo(f_utf8(p, x))),
    FEntry::FieldRef(x, y) => Some(ConstantPoolItem::FieldRef(f_member(p, x, y))),
    FEntry::MethodRef(x, y) => Some(ConstantPoolItem::MethodRef(f_member(p, x, y))),
    FEntry::InterfaceMethodRef(x, y) => Some(ConstantPoolItem::InterfaceMethodRef(f_member(p, x, y))),
    FEntry::NameAndType(x, y) => Some(ConstantPoolItem::NameAndType(NameAndType { name: f_utf8(p, x), descriptor: f_utf8(p, y) })),
    FEntry::MethodHandle(k, x) => Some(ConstantPoolItem::MethodHandle(f_mh(p, k, x))),
    FEntry::MethodType(x) => Some(ConstantPoolItem::MethodType(f_utf8(p, x))),
    FEntry::Dynamic(i, y) => Some(ConstantPoolItem::Dynamic(Dynamic { attr_index: i, name_and_type: f_nat(p, y) })),
    FEntry::InvokeDynamic(i, y) => Some(ConstantPoolItem::InvokeDynamic(InvokeDynamic { attr_index: i, name_and_type: f_nat(p, y) })),
    FEntry::ModuleInfo(x) => Some(ConstantPoolItem::ModuleInfo(f_utf8(p, x))),
    FEntry::PackageInfo(x) => Some(ConstantPoolItem::PackageInfo(f_utf8(p, x))),
    _ => Some(ConstantPoolItem::LiteralConstant(f_literal(p, e)->0)),
  }
}
/// one step of the iterator: from index i, it yields r and is at index j
spec fn item_step<'a>(f: Seq<FEntry<'a>>, i: int, r: Option<ConstantPoolItem<'a>>, j: int) -> bool {
  match r {
    Some(x) => i < j < f.len() && f_item(f, f[j]) == Some(x) && forall|k: int| i < k < j ==> f_item(f, #[trigger] f[k]) is None,
    None => forall|k: int| i < k < f.len() ==> f_item(f, #[trigger] f[k]) is None }
}
spec fn f_loadable<'a>(p: Seq<FEntry<'a>>, i: int) -> Option<Loadable<'a>> {
  require 0 <= i < p.len();
  match p[i] {
    FEntry::ClassInfo(x) => Some(Loadable::ClassInfo(f_utf8(p, x))),
    FEntry::MethodHandle(k, x) => Some(Loadable::MethodHandle(f_mh(p, k, x))),
    FEntry::MethodType(x) => Some(Loadable::MethodType(f_utf8(p, x))),
    FEntry::Dynamic(a, y) => Some(Loadable::Dynamic(Dynamic { attr_index: a, name_and_type: f_nat(p, y) })),
    e => match f_literal(p, e) { Some(l) => Some(Loadable::LiteralConstant(l)), None => None },
  }
}
// ---- readers of references: u2 index, in bounds, of the right kind
spec fn s_cp<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(FEntry<'a>, int)> { let (i, ix) = s_u2(b, ix)?;
  require (i as int) < p.len();
  Some((p[i as int], ix)) }
spec fn s_cp_utf8<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Cow<'a, str>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::Utf8(c) => Some((c, ix)), _ => None } }
spec fn s_cp_utf8_opt<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Option<Cow<'a, str>>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::Zero => Some((None, ix)), FEntry::Utf8(c) => Some((Some(c), ix)), _ => None } }
spec fn s_cp_class<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Cow<'a, str>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::ClassInfo(x) => Some((f_utf8(p, x), ix)), _ => None } }
spec fn s_cp_class_opt<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Option<Cow<'a, str>>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::Zero => Some((None, ix)), FEntry::ClassInfo(x) => Some((Some(f_utf8(p, x)), ix)), _ => None } }
spec fn s_cp_module<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Cow<'a, str>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::ModuleInfo(x) => Some((f_utf8(p, x), ix)), _ => None } }
spec fn s_cp_package<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Cow<'a, str>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::PackageInfo(x) => Some((f_utf8(p, x), ix)), _ => None } }
spec fn s_cp_nat_opt<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Option<NameAndType<'a>>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::Zero => Some((None, ix)), FEntry::NameAndType(x, y) => Some((Some(NameAndType { name: f_utf8(p, x), descriptor: f_utf8(p, y) }), ix)), _ => None } }
spec fn s_cp_literal<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(LiteralConstant<'a>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  let l = f_literal(p, e)?;
  Some((l, ix)) }
spec fn s_cp_integer<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(i32, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::Integer(v) => Some((v, ix)), _ => None } }
spec fn s_cp_float<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(f32, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::Float(v) => Some((v, ix)), _ => None } }
spec fn s_cp_long<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(i64, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::Long(v) => Some((v, ix)), _ => None } }
spec fn s_cp_double<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(f64, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::Double(v) => Some((v, ix)), _ => None } }
/// field / method / interface method reference, as far as allowed
spec fn s_cp_member<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, field: bool, method: bool, imethod: bool) -> Option<(MemberRef<'a>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e {
    FEntry::FieldRef(x, y) => if field { Some((f_member(p, x, y), ix)) } else { None },
    FEntry::MethodRef(x, y) => if method { Some((f_member(p, x, y), ix)) } else { None },
    FEntry::InterfaceMethodRef(x, y) => if imethod { Some((f_member(p, x, y), ix)) } else { None },
    _ => None } }
spec fn s_cp_indy<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(InvokeDynamic<'a>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::InvokeDynamic(a, y) => Some((InvokeDynamic { attr_index: a, name_and_type: f_nat(p, y) }, ix)), _ => None } }
spec fn s_cp_mh<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(MethodHandle<'a>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::MethodHandle(k, x) => Some((f_mh(p, k, x), ix)), _ => None } }
spec fn s_cp_bsarg<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(BootstrapArgument<'a>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e {
    FEntry::ClassInfo(x) => Some((BootstrapArgument::ClassInfo(f_utf8(p, x)), ix)),
    FEntry::MethodHandle(k, x) => Some((BootstrapArgument::MethodHandle(f_mh(p, k, x)), ix)),
    FEntry::MethodType(x) => Some((BootstrapArgument::MethodType(f_utf8(p, x)), ix)),
    e => match f_literal(p, e) { Some(l) => Some((BootstrapArgument::LiteralConstant(l), ix)), None => None } } }
spec fn s_cp_oat<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(ObjectArrayType<'a>, int)> { let (e, ix) = s_cp(b, ix, p)?;
  match e { FEntry::ClassInfo(x) => { let n = f_utf8(p, x); if cv(n).len() > 0 && cv(n)[0] == '[' { match s_fd_all(n) { Some(d) => Some((ObjectArrayType::ArrayType(d), ix)), None => None } } else { Some((ObjectArrayType::BinaryName(n), ix)) } }, _ => None } }
