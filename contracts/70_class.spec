// ---- C12: the class file as a whole (JVMS 4.1, 4.5, 4.6)
/// names of classes: one or more '/'-separated non-empty identifiers
spec fn s_cp_cname<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(ClassName<'a>, int)> {
  let (c, ix) = s_cp_class(b, ix, p)?;
  require s_cname(cv(c));
  Some((ClassName(c), ix))
}
spec fn s_cp_cname_opt<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Option<ClassName<'a>>, int)> {
  let (c, ix) = s_cp_class_opt(b, ix, p)?;
  match c { None => Some((None, ix)), Some(n) => if s_cname(cv(n)) { Some((Some(ClassName(n)), ix)) } else { None } }
}
rep s_ifaces<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of ClassName<'a> = s_cp_cname(b, ix, p)
spec fn s_interfaces<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<ClassName<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_ifaces(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
// fields: no two of a class have the same name and descriptor
spec fn field_key(f: FieldInfo) -> (Seq<char>, (u8, int, Seq<char>)) { (cv(f.name), fd_key(f.descriptor)) }
spec fn field_keys(v: Seq<FieldInfo>) -> Set<(Seq<char>, (u8, int, Seq<char>))> decreases v.len() { if v.len() == 0 { Set::empty() } else { field_keys(v.drop_last()).insert(field_key(v.last())) } }
spec fn s_field<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, acc: Seq<FieldInfo<'a>>) -> Option<(FieldInfo<'a>, int)> {
  let (f, ix) = s_u2(b, ix)?;
  let (name, ix) = s_cp_utf8(b, ix, p)?;
  require s_unqualified(cv(name));
  let (descriptor, ix) = s_cp_fd(b, ix, p)?;
  require !field_keys(acc).contains((cv(name), fd_key(descriptor)));
  let (attributes, ix) = s_attrs(b, ix, p, pb, 0)?;
  Some((FieldInfo { access_flags: FieldAccessFlags { bits: f & 0x50dfu16 }, name, descriptor, attributes }, ix))
}
rep s_fields_n<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool) of FieldInfo<'a> = s_field(b, ix, p, pb, acc)
spec fn s_fields<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool) -> Option<(Vec<FieldInfo<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_fields_n(b, p, pb, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
proof fn lemma_field_keys()
  ensures field_keys(Seq::empty()) == Set::<(Seq<char>, (u8, int, Seq<char>))>::empty(),
    forall|v: Seq<FieldInfo>, x: FieldInfo| #[trigger] field_keys(v.push(x)) == field_keys(v).insert(field_key(x)),
{ assert forall|v: Seq<FieldInfo>, x: FieldInfo| #[trigger] field_keys(v.push(x)) == field_keys(v).insert(field_key(x)) by { assert(v.push(x).drop_last() =~= v); assert(v.push(x).last() == x); } }
/// the keys are those of the elements
proof fn lemma_field_keys_are(v: Seq<FieldInfo>, k: (Seq<char>, (u8, int, Seq<char>)))
  ensures field_keys(v).contains(k) <==> exists|i: int| 0 <= i < v.len() && field_key(#[trigger] v[i]) == k
  decreases v.len()
{ if v.len() > 0 { lemma_field_keys_are(v.drop_last(), k);
  if field_keys(v.drop_last()).contains(k) { let i = choose|i: int| 0 <= i < v.drop_last().len() && field_key(#[trigger] v.drop_last()[i]) == k; assert(v[i] == v.drop_last()[i]); }
  if field_key(v.last()) == k { assert(field_key(v[v.len() - 1]) == k); }
  if exists|i: int| 0 <= i < v.len() && field_key(#[trigger] v[i]) == k { let i = choose|i: int| 0 <= i < v.len() && field_key(#[trigger] v[i]) == k; if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } } } }
// methods: likewise; <init> (classes only) and <clinit> are void, and from version 51 on <clinit> takes no arguments
spec fn method_key(f: MethodInfo) -> (Seq<char>, (Seq<(u8, int, Seq<char>)>, Option<(u8, int, Seq<char>)>)) { (cv(f.name), md_key(f.descriptor)) }
spec fn method_keys(v: Seq<MethodInfo>) -> Set<(Seq<char>, (Seq<(u8, int, Seq<char>)>, Option<(u8, int, Seq<char>)>))> decreases v.len() { if v.len() == 0 { Set::empty() } else { method_keys(v.drop_last()).insert(method_key(v.last())) } }
spec fn s_cp_md<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(MethodDescriptor<'a>, int)> {
  let (c, ix) = s_cp_utf8(b, ix, p)?;
  let d = s_md_all(c)?;
  Some((d, ix))
}
spec fn init_ok(name: Seq<char>, d: MethodDescriptor, iface: bool, mv: u16) -> bool {
  (!iface && name == "<init>"@ ==> d.return_type is Void)
  && (name == "<clinit>"@ ==> d.return_type is Void && (mv >= 51 ==> d.parameters@.len() == 0))
}
spec fn s_method<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, iface: bool, mv: u16, acc: Seq<MethodInfo<'a>>) -> Option<(MethodInfo<'a>, int)> {
  let (f, ix) = s_u2(b, ix)?;
  let (name, ix) = s_cp_utf8(b, ix, p)?;
  require s_method_name(cv(name), !iface, true);
  let (descriptor, ix) = s_cp_md(b, ix, p)?;
  require init_ok(cv(name), descriptor, iface, mv);
  require !method_keys(acc).contains((cv(name), md_key(descriptor)));
  let (attributes, ix) = s_attrs(b, ix, p, pb, 0)?;
  Some((MethodInfo { access_flags: MethodAccessFlags { bits: f & 0x1dffu16 }, name, descriptor, attributes }, ix))
}
rep s_methods_n<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, iface: bool, mv: u16) of MethodInfo<'a> = s_method(b, ix, p, pb, iface, mv, acc)
spec fn s_methods<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, iface: bool, mv: u16) -> Option<(Vec<MethodInfo<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_methods_n(b, p, pb, iface, mv, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
proof fn lemma_method_keys()
  ensures method_keys(Seq::empty()) == Set::<(Seq<char>, (Seq<(u8, int, Seq<char>)>, Option<(u8, int, Seq<char>)>))>::empty(),
    forall|v: Seq<MethodInfo>, x: MethodInfo| #[trigger] method_keys(v.push(x)) == method_keys(v).insert(method_key(x)),
{ assert forall|v: Seq<MethodInfo>, x: MethodInfo| #[trigger] method_keys(v.push(x)) == method_keys(v).insert(method_key(x)) by { assert(v.push(x).drop_last() =~= v); assert(v.push(x).last() == x); } }
/// the keys are those of the elements
proof fn lemma_method_keys_are(v: Seq<MethodInfo>, k: (Seq<char>, (Seq<(u8, int, Seq<char>)>, Option<(u8, int, Seq<char>)>)))
  ensures method_keys(v).contains(k) <==> exists|i: int| 0 <= i < v.len() && method_key(#[trigger] v[i]) == k
  decreases v.len()
{ if v.len() > 0 { lemma_method_keys_are(v.drop_last(), k);
  if method_keys(v.drop_last()).contains(k) { let i = choose|i: int| 0 <= i < v.drop_last().len() && method_key(#[trigger] v.drop_last()[i]) == k; assert(v[i] == v.drop_last()[i]); }
  if method_key(v.last()) == k { assert(method_key(v[v.len() - 1]) == k); }
  if exists|i: int| 0 <= i < v.len() && method_key(#[trigger] v[i]) == k { let i = choose|i: int| 0 <= i < v.len() && method_key(#[trigger] v[i]) == k; if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } } } }
// bootstrap methods: a dynamic constant needs exactly one BootstrapMethods attribute, with the entry it names
spec fn bsm_count(a: Seq<AttributeInfo>) -> int decreases a.len() { if a.len() == 0 { 0 } else { bsm_count(a.drop_last()) + (if a.last().data is BootstrapMethods { 1int } else { 0 }) } }
spec fn bsm_above(a: AttributeInfo, x: u16) -> bool { match a.data { AttributeData::BootstrapMethods(m) => x < m@.len(), _ => true } }
spec fn bsm_all_above(a: Seq<AttributeInfo>, x: u16) -> bool { forall|j: int| 0 <= j < a.len() ==> bsm_above(#[trigger] a[j], x) }
spec fn f_dynamic(e: FEntry) -> Option<u16> { match e { FEntry::Dynamic(x, _) => Some(x), FEntry::InvokeDynamic(x, _) => Some(x), _ => None } }
spec fn bsm_ok(a: Seq<AttributeInfo>, e: FEntry) -> bool { match f_dynamic(e) { Some(x) => bsm_count(a) == 1 && bsm_all_above(a, x), None => true } }
spec fn bootstrap_ok(p: Seq<FEntry>, a: Seq<AttributeInfo>) -> bool { forall|i: int| 0 <= i < p.len() ==> bsm_ok(a, #[trigger] p[i]) }
proof fn lemma_bsm_step(a: Seq<AttributeInfo>, i: int, x: u16)
  requires 0 <= i < a.len()
  ensures bsm_count(a.take(i + 1)) == bsm_count(a.take(i)) + (if a[i].data is BootstrapMethods { 1int } else { 0 }), bsm_count(a.take(0)) == 0, a.take(a.len() as int) == a,
    0 <= bsm_count(a.take(i)) <= i,
    bsm_all_above(a.take(i + 1), x) <==> bsm_all_above(a.take(i), x) && bsm_above(a[i], x),
    bsm_all_above(a, x) ==> bsm_above(a[i], x),
  decreases i
{
  let t = a.take(i + 1);
  assert(t.drop_last() =~= a.take(i));
  assert(t.last() == a[i]);
  assert(a.take(a.len() as int) =~= a);
  assert forall|j: int| 0 <= j < i implies a.take(i)[j] == t[j] by {}
  assert(t[i] == a[i]);
  if bsm_all_above(t, x) { assert forall|j: int| 0 <= j < i implies bsm_above(#[trigger] a.take(i)[j], x) by { assert(bsm_above(t[j], x)); } }
  if i > 0 { lemma_bsm_step(a, i - 1, x); }
}
proof fn lemma_bsm_zero(a: Seq<AttributeInfo>) ensures bsm_count(a.take(0)) == 0, forall|x: u16| #[trigger] bsm_all_above(a.take(0), x), a.take(a.len() as int) == a { assert(a.take(a.len() as int) =~= a); }
/// everything a parsed class exposes; the constant pool as its flat contents
pub struct SClass<'a> { pub minor: u16, pub major: u16, pub pool: Seq<FEntry<'a>>, pub flags: ClassAccessFlags, pub this_class: ClassName<'a>, pub super_class: Option<ClassName<'a>>,
  pub interfaces: Vec<ClassName<'a>>, pub fields: Vec<FieldInfo<'a>>, pub methods: Vec<MethodInfo<'a>>, pub attributes: Vec<AttributeInfo<'a>> }
spec fn module_flags_ok(f: u16, mv: u16) -> bool { f & 0x8000 == 0x8000 ==> mv >= 53 && f & 0xf631 == 0x8000 }
proof fn lemma_class_flags()
  ensures forall|f: u16| (#[trigger] (f & 0xf631u16)) & 0x8000u16 == 0x8000u16 <==> f & 0x8000u16 == 0x8000u16,
    forall|f: u16| (#[trigger] (f & 0xf631u16)) & 0x200u16 == 0x200u16 <==> f & 0x200u16 == 0x200u16,
{
  assert forall|f: u16| (#[trigger] (f & 0xf631u16)) & 0x8000u16 == 0x8000u16 <==> f & 0x8000u16 == 0x8000u16 by { assert((f & 0xf631u16) & 0x8000u16 == 0x8000u16 <==> f & 0x8000u16 == 0x8000u16) by (bit_vector); }
  assert forall|f: u16| (#[trigger] (f & 0xf631u16)) & 0x200u16 == 0x200u16 <==> f & 0x200u16 == 0x200u16 by { assert((f & 0xf631u16) & 0x200u16 == 0x200u16 <==> f & 0x200u16 == 0x200u16) by (bit_vector); }
}
spec fn s_class<'a>(b: Seq<u8>, pb: bool) -> Option<SClass<'a>> {
  let (magic, ix) = s_u4(b, 0)?;
  require magic == 0xCAFE_BABE;
  let (minor, ix) = s_u2(b, ix)?;
  let (major, ix) = s_u2(b, ix)?;
  let (pool, ix) = s_pool(b, ix, major)?;
  let (f, ix) = s_u2(b, ix)?;
  require module_flags_ok(f, major);
  let (this_class, ix) = s_cp_cname(b, ix, pool)?;
  let (super_class, ix) = s_cp_cname_opt(b, ix, pool)?;
  let (interfaces, ix) = s_interfaces(b, ix, pool)?;
  let (fields, ix) = s_fields(b, ix, pool, pb)?;
  let (methods, ix) = s_methods(b, ix, pool, pb, f & 0x200 == 0x200, major)?;
  let (attributes, ix) = s_attrs(b, ix, pool, pb, 0)?;
  require ix == b.len();
  require f & 0x8000 == 0x8000 ==> super_class is None && interfaces@.len() == 0 && fields@.len() == 0 && methods@.len() == 0;
  require bootstrap_ok(pool, attributes@);
  Some(SClass { minor, major, pool, flags: ClassAccessFlags { bits: f & 0xf631u16 }, this_class, super_class, interfaces, fields, methods, attributes })
}
/// the parsed class c is the class the specification reads from the bytes
spec fn is_class<'a>(c: ClassFile<'a>, s: SClass<'a>) -> bool {
  c.minor_version == s.minor && c.major_version == s.major && fp(c.constant_pool@) == s.pool && c.access_flags == s.flags && c.this_class == s.this_class && c.super_class == s.super_class
  && c.interfaces == s.interfaces && c.fields == s.fields && c.methods == s.methods && c.attributes == s.attributes
}
