// ---- the pool as the code represents it: shared entries with cells that are linked once
spec fn raw<'a>(c: CafeCell<ConstantPoolRef<'a>>) -> u16 { match c.first() { ConstantPoolRef::Unresolved(u) => u, _ => arbitrary() } }
spec fn flat<'a>(e: ConstantPoolEntry<'a>) -> FEntry<'a> {
  match e {
    ConstantPoolEntry::Zero => FEntry::Zero, ConstantPoolEntry::Utf8(c) => FEntry::Utf8(c), ConstantPoolEntry::Utf8Bytes(x) => FEntry::Utf8Bytes(x),
    ConstantPoolEntry::Integer(v) => FEntry::Integer(v), ConstantPoolEntry::Float(v) => FEntry::Float(v), ConstantPoolEntry::Long(v) => FEntry::Long(v), ConstantPoolEntry::Double(v) => FEntry::Double(v),
    ConstantPoolEntry::ClassInfo(x) => FEntry::ClassInfo(raw(x)), ConstantPoolEntry::String(x) => FEntry::Str(raw(x)),
    ConstantPoolEntry::FieldRef(x, y) => FEntry::FieldRef(raw(x), raw(y)), ConstantPoolEntry::MethodRef(x, y) => FEntry::MethodRef(raw(x), raw(y)),
    ConstantPoolEntry::InterfaceMethodRef(x, y) => FEntry::InterfaceMethodRef(raw(x), raw(y)), ConstantPoolEntry::NameAndType(x, y) => FEntry::NameAndType(raw(x), raw(y)),
    ConstantPoolEntry::MethodHandle(k, x) => FEntry::MethodHandle(k, raw(x)), ConstantPoolEntry::MethodType(x) => FEntry::MethodType(raw(x)),
    ConstantPoolEntry::Dynamic(a, x) => FEntry::Dynamic(a, raw(x)), ConstantPoolEntry::InvokeDynamic(a, x) => FEntry::InvokeDynamic(a, raw(x)),
    ConstantPoolEntry::ModuleInfo(x) => FEntry::ModuleInfo(raw(x)), ConstantPoolEntry::PackageInfo(x) => FEntry::PackageInfo(raw(x)), ConstantPoolEntry::Unused => FEntry::Unused,
  }
}
spec fn fp<'a>(p: Seq<CafeRc<ConstantPoolEntry<'a>>>) -> Seq<FEntry<'a>> { Seq::new(p.len(), |i: int| flat(*p[i])) }
spec fn is_raw(c: CafeCell<ConstantPoolRef>) -> bool { c.first() is Unresolved }
spec fn fresh(e: ConstantPoolEntry) -> bool { (has_a(flat(e)) ==> is_raw(ca(e))) && (has_b(flat(e)) ==> is_raw(cb(e))) }
spec fn cell_in<'a>(p: Seq<CafeRc<ConstantPoolEntry<'a>>>, c: CafeCell<ConstantPoolRef<'a>>) -> bool {
  is_raw(c) && raw(c) < p.len() && c.linked() && c.last() == ConstantPoolRef::Resolved(p[raw(c) as int])
}
spec fn linked_in<'a>(p: Seq<CafeRc<ConstantPoolEntry<'a>>>, e: ConstantPoolEntry<'a>) -> bool { (has_a(flat(e)) ==> cell_in(p, ca(e))) && (has_b(flat(e)) ==> cell_in(p, cb(e))) }
spec fn pool_fresh(p: Seq<CafeRc<ConstantPoolEntry>>) -> bool { forall|i: int| 0 <= i < p.len() ==> fresh(*#[trigger] p[i]) }
spec fn at_linked(p: Seq<CafeRc<ConstantPoolEntry>>, i: int) -> bool { linked_in(p, *p[i]) && f_linkable(fp(p), flat(*p[i])) }
spec fn pool_linked(p: Seq<CafeRc<ConstantPoolEntry>>) -> bool { forall|i: int| 0 <= i < p.len() ==> #[trigger] at_linked(p, i) }
/// the invariant of an accepted constant pool
spec fn at_wf(p: Seq<CafeRc<ConstantPoolEntry>>, mv: u16, i: int) -> bool { at_linked(p, i) && f_valid(fp(p), flat(*p[i]), mv) && (i > 0 ==> !(*p[i] is Zero)) }
spec fn wf_mv(p: Seq<CafeRc<ConstantPoolEntry>>, mv: u16) -> bool { 0 < p.len() <= 65535 && forall|i: int| 0 <= i < p.len() ==> #[trigger] at_wf(p, mv, i) }
#[verifier::opaque]
spec fn wf(p: Seq<CafeRc<ConstantPoolEntry>>) -> bool { exists|mv: u16| #[trigger] wf_mv(p, mv) }
/// what is known about entry i of a well-formed pool
spec fn at_ok(p: Seq<CafeRc<ConstantPoolEntry>>, i: int) -> bool {
  0 <= i < p.len() ==> { linked_in(p, *p[i]) && f_linkable(fp(p), flat(*p[i])) && (i > 0 ==> !(*p[i] is Zero)) && x_text_ok(*p[i]) && fp(p)[i] == flat(*p[i]) }
}
proof fn lemma_ok(p: Seq<CafeRc<ConstantPoolEntry>>, i: int) requires wf(p) ensures at_ok(p, i) {
  hide(f_valid);
  reveal(wf);

  if 0 <= i < p.len() {
    let mv = choose|mv: u16| #[trigger] wf_mv(p, mv);
    assert(at_wf(p, mv, i));
    assert(fp(p)[i] == flat(*p[i]));
    lemma_texty(fp(p), fp(p)[i], mv);
    lemma_link_types(p, i);
  }
}
// ---- values as the code reaches them: by following the linked cells
spec fn tgt<'a>(c: CafeCell<ConstantPoolRef<'a>>) -> ConstantPoolEntry<'a> { *(c.last()->Resolved_0) }
spec fn is_linked(c: CafeCell<ConstantPoolRef>) -> bool { c.linked() && c.last() is Resolved }
spec fn x_linked<'a>(e: ConstantPoolEntry<'a>) -> bool { (has_a(flat(e)) ==> is_linked(ca(e))) && (has_b(flat(e)) ==> is_linked(cb(e))) }
spec fn x_text(e: ConstantPoolEntry) -> Option<Seq<char>> { match e { ConstantPoolEntry::Utf8(c) => Some(cv(c)), _ => None } }
spec fn x_desc(e: ConstantPoolEntry) -> Option<Seq<char>> { match e { ConstantPoolEntry::NameAndType(_, y) => x_text(tgt(y)), _ => None } }
spec fn x_utf8<'a>(e: ConstantPoolEntry<'a>) -> Cow<'a, str> { e->Utf8_0 }
/// NameAndType with readable texts
spec fn x_nat_ok(e: ConstantPoolEntry) -> bool { match e { ConstantPoolEntry::NameAndType(x, y) => is_linked(x) && is_linked(y) && tgt(x) is Utf8 && tgt(y) is Utf8, _ => false } }
spec fn x_class_ok(e: ConstantPoolEntry) -> bool { match e { ConstantPoolEntry::ClassInfo(x) => is_linked(x) && tgt(x) is Utf8, _ => false } }
spec fn x_member_ok(e: ConstantPoolEntry) -> bool {
  match e {
    ConstantPoolEntry::FieldRef(x, y) => is_linked(x) && is_linked(y) && x_class_ok(tgt(x)) && x_nat_ok(tgt(y)),
    ConstantPoolEntry::MethodRef(x, y) => is_linked(x) && is_linked(y) && x_class_ok(tgt(x)) && x_nat_ok(tgt(y)),
    ConstantPoolEntry::InterfaceMethodRef(x, y) => is_linked(x) && is_linked(y) && x_class_ok(tgt(x)) && x_nat_ok(tgt(y)),
    _ => false,
  }
}
/// texts that the accessors rely on are readable (not raw bytes)
spec fn x_text_ok(e: ConstantPoolEntry) -> bool {
  match e {
    ConstantPoolEntry::ClassInfo(x) => tgt(x) is Utf8, ConstantPoolEntry::MethodType(x) => tgt(x) is Utf8, ConstantPoolEntry::ModuleInfo(x) => tgt(x) is Utf8, ConstantPoolEntry::PackageInfo(x) => tgt(x) is Utf8,
    ConstantPoolEntry::NameAndType(x, y) => tgt(x) is Utf8 && tgt(y) is Utf8,
    _ => true,
  }
}
spec fn f_texty(p: Seq<FEntry>, e: FEntry) -> bool {
  match e {
    FEntry::ClassInfo(x) => p[x as int] is Utf8, FEntry::MethodType(x) => p[x as int] is Utf8, FEntry::ModuleInfo(x) => p[x as int] is Utf8, FEntry::PackageInfo(x) => p[x as int] is Utf8,
    FEntry::NameAndType(x, y) => p[x as int] is Utf8 && p[y as int] is Utf8,
    _ => true,
  }
}
proof fn lemma_texty(p: Seq<FEntry>, e: FEntry, mv: u16) requires f_valid(p, e, mv) ensures f_texty(p, e) { }
proof fn lemma_link_types(p: Seq<CafeRc<ConstantPoolEntry>>, i: int) requires 0 <= i < p.len(), linked_in(p, *p[i]), f_texty(fp(p), flat(*p[i])), f_linkable(fp(p), flat(*p[i])) ensures x_text_ok(*p[i]) {
  let f = fp(p);
  let a = ref_a(f[i]); let b = ref_b(f[i]);
  if 0 <= a < p.len() { assert(f[a] == flat(*p[a])); }
  if 0 <= b < p.len() { assert(f[b] == flat(*p[b])); }
}
spec fn x_nat<'a>(e: ConstantPoolEntry<'a>) -> NameAndType<'a> { match e { ConstantPoolEntry::NameAndType(x, y) => NameAndType { name: x_utf8(tgt(x)), descriptor: x_utf8(tgt(y)) }, _ => arbitrary() } }
spec fn x_class<'a>(e: ConstantPoolEntry<'a>) -> Cow<'a, str> { x_utf8(tgt(e->ClassInfo_0)) }
spec fn x_lit<'a>(e: ConstantPoolEntry<'a>) -> LiteralConstant<'a> { match e { ConstantPoolEntry::Utf8(c) => LiteralConstant::String(c), ConstantPoolEntry::Utf8Bytes(x) => LiteralConstant::StringBytes(x), _ => arbitrary() } }
spec fn x_mh<'a>(k: ReferenceKind, e: ConstantPoolEntry<'a>) -> MethodHandle<'a> {
  match e {
    ConstantPoolEntry::FieldRef(c, m) => MethodHandle { kind: k, class_name: x_class(tgt(c)), member_kind: MemberKind::Field, member_ref: x_nat(tgt(m)) },
    ConstantPoolEntry::MethodRef(c, m) => MethodHandle { kind: k, class_name: x_class(tgt(c)), member_kind: MemberKind::Method, member_ref: x_nat(tgt(m)) },
    ConstantPoolEntry::InterfaceMethodRef(c, m) => MethodHandle { kind: k, class_name: x_class(tgt(c)), member_kind: MemberKind::InterfaceMethod, member_ref: x_nat(tgt(m)) },
    _ => arbitrary(),
  }
}
spec fn x_utf8_kind(e: ConstantPoolEntry) -> bool { e is Utf8 || e is Utf8Bytes }
spec fn ca<'a>(e: ConstantPoolEntry<'a>) -> CafeCell<ConstantPoolRef<'a>> {
  match e {
    ConstantPoolEntry::ClassInfo(x) => x, ConstantPoolEntry::String(x) => x, ConstantPoolEntry::MethodType(x) => x, ConstantPoolEntry::ModuleInfo(x) => x, ConstantPoolEntry::PackageInfo(x) => x,
    ConstantPoolEntry::MethodHandle(_, x) => x, ConstantPoolEntry::Dynamic(_, x) => x, ConstantPoolEntry::InvokeDynamic(_, x) => x,
    ConstantPoolEntry::FieldRef(x, _) => x, ConstantPoolEntry::MethodRef(x, _) => x, ConstantPoolEntry::InterfaceMethodRef(x, _) => x, ConstantPoolEntry::NameAndType(x, _) => x,
    _ => arbitrary(),
  }
}
spec fn cb<'a>(e: ConstantPoolEntry<'a>) -> CafeCell<ConstantPoolRef<'a>> {
  match e { ConstantPoolEntry::FieldRef(_, y) => y, ConstantPoolEntry::MethodRef(_, y) => y, ConstantPoolEntry::InterfaceMethodRef(_, y) => y, ConstantPoolEntry::NameAndType(_, y) => y, _ => arbitrary() }
}
spec fn has_a(e: FEntry) -> bool { !(e is Zero || e is Utf8 || e is Utf8Bytes || e is Integer || e is Float || e is Long || e is Double || e is Unused) }
spec fn has_b(e: FEntry) -> bool { f_is_member(e) || e is NameAndType }
spec fn x_info(e: ConstantPoolEntry) -> Info { Info { text: x_text(e), desc: x_desc(e), field: e is FieldRef, method: e is MethodRef, imethod: e is InterfaceMethodRef } }
/// the entry is valid, given that its references are linked
spec fn x_valid(e: ConstantPoolEntry, mv: u16) -> bool { v_entry(flat(e), mv, x_info(tgt(ca(e))), x_info(tgt(cb(e)))) }
/// linked to depth two: the references of the entry, and those of the NameAndType it refers to
spec fn x_linked2<'a>(e: ConstantPoolEntry<'a>) -> bool { (has_a(flat(e)) ==> is_linked(ca(e)) && (tgt(ca(e)) is NameAndType ==> x_linked(tgt(ca(e))))) && (has_b(flat(e)) ==> is_linked(cb(e)) && (tgt(cb(e)) is NameAndType ==> x_linked(tgt(cb(e))))) }
// ---- entry type bits
spec fn tbits(e: FEntry) -> u32 {
  match e {
    FEntry::Zero => 0x1, FEntry::Utf8(_) => 0x2, FEntry::Utf8Bytes(_) => 0x2, FEntry::Integer(_) => 0x4, FEntry::Float(_) => 0x8, FEntry::Long(_) => 0x10, FEntry::Double(_) => 0x20,
    FEntry::ClassInfo(_) => 0x40, FEntry::Str(_) => 0x80, FEntry::FieldRef(_, _) => 0x100, FEntry::MethodRef(_, _) => 0x200, FEntry::InterfaceMethodRef(_, _) => 0x400, FEntry::NameAndType(_, _) => 0x800,
    FEntry::MethodHandle(_, _) => 0x1000, FEntry::MethodType(_) => 0x2000, FEntry::Dynamic(_, _) => 0x4000, FEntry::InvokeDynamic(_, _) => 0x8000, FEntry::ModuleInfo(_) => 0x10000, FEntry::PackageInfo(_) => 0x20000, FEntry::Unused => 0x40000,
  }
}
spec fn allows(a: ConstantPoolEntryTypes, e: FEntry) -> bool { a.bits & tbits(e) == tbits(e) }
spec fn is_tbit(t: u32) -> bool { t == 0x1 || t == 0x2 || t == 0x4 || t == 0x8 || t == 0x10 || t == 0x20 || t == 0x40 || t == 0x80 || t == 0x100 || t == 0x200 || t == 0x400 || t == 0x800 || t == 0x1000 || t == 0x2000 || t == 0x4000 || t == 0x8000 || t == 0x10000 || t == 0x20000 || t == 0x40000 }
proof fn lemma_bits(t: u32) requires is_tbit(t)
  ensures (0x2u32 & t == t) == (t == 0x2), (0x40u32 & t == t) == (t == 0x40), (0x800u32 & t == t) == (t == 0x800), (0x100u32 & t == t) == (t == 0x100), (0x200u32 & t == t) == (t == 0x200), (0x400u32 & t == t) == (t == 0x400),
    (0x600u32 & t == t) == (t == 0x200 || t == 0x400), (0x700u32 & t == t) == (t == 0x100 || t == 0x200 || t == 0x400),
{
  assert((0x2u32 & t == t) == (t == 0x2)) by (bit_vector) requires t == 0x1 || t == 0x2 || t == 0x4 || t == 0x8 || t == 0x10 || t == 0x20 || t == 0x40 || t == 0x80 || t == 0x100 || t == 0x200 || t == 0x400 || t == 0x800 || t == 0x1000 || t == 0x2000 || t == 0x4000 || t == 0x8000 || t == 0x10000 || t == 0x20000 || t == 0x40000;
  assert((0x40u32 & t == t) == (t == 0x40)) by (bit_vector) requires t == 0x1 || t == 0x2 || t == 0x4 || t == 0x8 || t == 0x10 || t == 0x20 || t == 0x40 || t == 0x80 || t == 0x100 || t == 0x200 || t == 0x400 || t == 0x800 || t == 0x1000 || t == 0x2000 || t == 0x4000 || t == 0x8000 || t == 0x10000 || t == 0x20000 || t == 0x40000;
  assert((0x800u32 & t == t) == (t == 0x800)) by (bit_vector) requires t == 0x1 || t == 0x2 || t == 0x4 || t == 0x8 || t == 0x10 || t == 0x20 || t == 0x40 || t == 0x80 || t == 0x100 || t == 0x200 || t == 0x400 || t == 0x800 || t == 0x1000 || t == 0x2000 || t == 0x4000 || t == 0x8000 || t == 0x10000 || t == 0x20000 || t == 0x40000;
  assert((0x100u32 & t == t) == (t == 0x100)) by (bit_vector) requires t == 0x1 || t == 0x2 || t == 0x4 || t == 0x8 || t == 0x10 || t == 0x20 || t == 0x40 || t == 0x80 || t == 0x100 || t == 0x200 || t == 0x400 || t == 0x800 || t == 0x1000 || t == 0x2000 || t == 0x4000 || t == 0x8000 || t == 0x10000 || t == 0x20000 || t == 0x40000;
  assert((0x200u32 & t == t) == (t == 0x200)) by (bit_vector) requires t == 0x1 || t == 0x2 || t == 0x4 || t == 0x8 || t == 0x10 || t == 0x20 || t == 0x40 || t == 0x80 || t == 0x100 || t == 0x200 || t == 0x400 || t == 0x800 || t == 0x1000 || t == 0x2000 || t == 0x4000 || t == 0x8000 || t == 0x10000 || t == 0x20000 || t == 0x40000;
  assert((0x400u32 & t == t) == (t == 0x400)) by (bit_vector) requires t == 0x1 || t == 0x2 || t == 0x4 || t == 0x8 || t == 0x10 || t == 0x20 || t == 0x40 || t == 0x80 || t == 0x100 || t == 0x200 || t == 0x400 || t == 0x800 || t == 0x1000 || t == 0x2000 || t == 0x4000 || t == 0x8000 || t == 0x10000 || t == 0x20000 || t == 0x40000;
  assert((0x600u32 & t == t) == (t == 0x200 || t == 0x400)) by (bit_vector) requires t == 0x1 || t == 0x2 || t == 0x4 || t == 0x8 || t == 0x10 || t == 0x20 || t == 0x40 || t == 0x80 || t == 0x100 || t == 0x200 || t == 0x400 || t == 0x800 || t == 0x1000 || t == 0x2000 || t == 0x4000 || t == 0x8000 || t == 0x10000 || t == 0x20000 || t == 0x40000;
  assert((0x700u32 & t == t) == (t == 0x100 || t == 0x200 || t == 0x400)) by (bit_vector) requires t == 0x1 || t == 0x2 || t == 0x4 || t == 0x8 || t == 0x10 || t == 0x20 || t == 0x40 || t == 0x80 || t == 0x100 || t == 0x200 || t == 0x400 || t == 0x800 || t == 0x1000 || t == 0x2000 || t == 0x4000 || t == 0x8000 || t == 0x10000 || t == 0x20000 || t == 0x40000;
}
/// what the sets of types used by the code allow
spec fn allow_facts(e: FEntry) -> bool {
  allows(ConstantPoolEntryTypes::UTF8, e) == f_is_utf8(e) && allows(ConstantPoolEntryTypes::CLASS_INFO, e) == e is ClassInfo && allows(ConstantPoolEntryTypes::NAME_AND_TYPE, e) == e is NameAndType
  && allows(ConstantPoolEntryTypes::FIELD_REF, e) == e is FieldRef && allows(ConstantPoolEntryTypes::METHOD_REF, e) == e is MethodRef && allows(ConstantPoolEntryTypes::INTERFACE_METHOD_REF, e) == e is InterfaceMethodRef
  && allows(ConstantPoolEntryTypes::NEW_METHOD_REFS, e) == (e is MethodRef || e is InterfaceMethodRef) && allows(ConstantPoolEntryTypes::MEMBER_REFS, e) == f_is_member(e)
}
proof fn lemma_allows(e: FEntry) ensures allow_facts(e) { lemma_bits(tbits(e)); }
proof fn x_allows(e: ConstantPoolEntry) ensures allow_facts(flat(tgt(ca(e)))), allow_facts(flat(tgt(cb(e)))) { lemma_allows(flat(tgt(ca(e)))); lemma_allows(flat(tgt(cb(e)))); }
proof fn lemma_fp_push<'a>() ensures forall|a: Seq<CafeRc<ConstantPoolEntry<'a>>>, x: CafeRc<ConstantPoolEntry<'a>>| #[trigger] fp(a.push(x)) == fp(a).push(flat(*x)),
  flat(ConstantPoolEntry::<'a>::Unused) is Unused, flat(ConstantPoolEntry::<'a>::Zero) is Zero, fresh(ConstantPoolEntry::<'a>::Unused), fresh(ConstantPoolEntry::<'a>::Zero)
{
  assert forall|a: Seq<CafeRc<ConstantPoolEntry<'a>>>, x: CafeRc<ConstantPoolEntry<'a>>| #[trigger] fp(a.push(x)) == fp(a).push(flat(*x)) by { assert(fp(a.push(x)) =~= fp(a).push(flat(*x))); }
}
spec fn lnk(p: Seq<CafeRc<ConstantPoolEntry>>, i: int) -> bool { 0 <= i < p.len() ==> linked_in(p, *p[i]) && f_linkable(fp(p), fp(p)[i]) && fp(p)[i] == flat(*p[i]) }
proof fn lemma_lnk(p: Seq<CafeRc<ConstantPoolEntry>>, i: int) requires pool_linked(p) ensures lnk(p, i) { if 0 <= i < p.len() { assert(at_linked(p, i)); } }
spec fn i_lnk(p: Seq<CafeRc<ConstantPoolEntry>>, i: int) -> bool { 0 <= i < p.len() ==> (*p[i] is NameAndType ==> x_linked(*p[i])) && x_info(*p[i]) == f_info(fp(p), i) }
proof fn lemma_i_lnk(p: Seq<CafeRc<ConstantPoolEntry>>, i: int) requires pool_linked(p), 0 <= i <= 65535 ensures i_lnk(p, i)
{ lemma_lnk(p, i); if i < p.len() { lemma_lnk(p, ref_a(fp(p)[i])); lemma_lnk(p, ref_b(fp(p)[i])); } }
proof fn lemma_valid_at(p: Seq<CafeRc<ConstantPoolEntry>>, i: int, mv: u16)
  requires pool_linked(p), f_all_linkable(fp(p)), 0 <= i < p.len()
  ensures x_linked2(*p[i]), x_kind(*p[i]), f_valid(fp(p), flat(*p[i]), mv) == (x_valid(*p[i], mv) && (*p[i] is NameAndType ==> x_text(tgt((*p[i])->NameAndType_1)) is Some)), *p[i] is NameAndType ==> is_linked((*p[i])->NameAndType_1),
{
  lemma_lnk(p, i);
  let a = ref_a(fp(p)[i]); let b = ref_b(fp(p)[i]);
  lemma_i_lnk(p, a); lemma_i_lnk(p, b);
  lemma_valid_at2(p, i, mv);
  lemma_kind_at(p, i);
}
proof fn lemma_kind_at(p: Seq<CafeRc<ConstantPoolEntry>>, i: int) requires 0 <= i < p.len(), lnk(p, i) ensures x_kind(*p[i]) {
  let a = ref_a(fp(p)[i]); let b = ref_b(fp(p)[i]);
  if 0 <= a < p.len() { assert(fp(p)[a] == flat(*p[a])); }
  if 0 <= b < p.len() { assert(fp(p)[b] == flat(*p[b])); }
}
/// the references of a linked entry, as cells and as indexes
spec fn a_lnk(p: Seq<CafeRc<ConstantPoolEntry>>, e: ConstantPoolEntry) -> bool {
  (has_a(flat(e)) ==> 0 <= ref_a(flat(e)) < p.len() && is_linked(ca(e)) && tgt(ca(e)) == *p[ref_a(flat(e))]) && (has_b(flat(e)) ==> 0 <= ref_b(flat(e)) < p.len() && is_linked(cb(e)) && tgt(cb(e)) == *p[ref_b(flat(e))])
}
proof fn lemma_ca(e: ConstantPoolEntry) ensures has_a(flat(e)) ==> ref_a(flat(e)) == raw(ca(e)), has_b(flat(e)) ==> ref_b(flat(e)) == raw(cb(e)) && has_a(flat(e)) { }
proof fn lemma_a_lnk(p: Seq<CafeRc<ConstantPoolEntry>>, i: int) requires 0 <= i < p.len(), lnk(p, i) ensures a_lnk(p, *p[i]) {
  hide(flat); hide(has_a); hide(has_b); hide(ca); hide(cb); hide(ref_a); hide(ref_b); hide(f_linkable); hide(fp);
  lemma_ca(ent(p, i));
}
proof fn lemma_valid_at2(p: Seq<CafeRc<ConstantPoolEntry>>, i: int, mv: u16)
  requires 0 <= i < p.len(), lnk(p, i), i_lnk(p, ref_a(fp(p)[i])), i_lnk(p, ref_b(fp(p)[i]))
  ensures x_linked2(*p[i]), f_valid(fp(p), flat(*p[i]), mv) == (x_valid(*p[i], mv) && (*p[i] is NameAndType ==> x_text(tgt((*p[i])->NameAndType_1)) is Some)),
{
  hide(flat); hide(has_a); hide(has_b); hide(ca); hide(cb); hide(ref_a); hide(ref_b); hide(f_linkable); hide(v_entry); hide(x_linked); hide(linked_in); hide(fp);
  lemma_a_lnk(p, i);
  lemma_v_entry(ent(p, i), mv, f_info(fp(p), ref_a(fp(p)[i])), f_info(fp(p), ref_b(fp(p)[i])));
}
proof fn lemma_v_entry(e: ConstantPoolEntry, mv: u16, a: Info, b: Info) ensures
  forall|a2: Info, b2: Info| (has_a(flat(e)) ==> a == a2) && (has_b(flat(e)) ==> b == b2) ==> v_entry(flat(e), mv, a, b) == #[trigger] v_entry(flat(e), mv, a2, b2),
  (flat(e) is NameAndType) == (e is NameAndType), e is NameAndType ==> has_a(flat(e)) && has_b(flat(e)) && e->NameAndType_1 == cb(e)
{ hide(t_fd); hide(t_md); hide(t_class); hide(t_binary); hide(t_module); hide(t_name); hide(s_kind_ok); }
spec fn x_kind(e: ConstantPoolEntry) -> bool {
  match e {
    ConstantPoolEntry::ClassInfo(x) => x_utf8_kind(tgt(x)), ConstantPoolEntry::String(x) => x_utf8_kind(tgt(x)), ConstantPoolEntry::MethodType(x) => x_utf8_kind(tgt(x)),
    ConstantPoolEntry::ModuleInfo(x) => x_utf8_kind(tgt(x)), ConstantPoolEntry::PackageInfo(x) => x_utf8_kind(tgt(x)),
    ConstantPoolEntry::NameAndType(x, y) => x_utf8_kind(tgt(x)) && x_utf8_kind(tgt(y)),
    ConstantPoolEntry::FieldRef(x, y) => tgt(x) is ClassInfo && tgt(y) is NameAndType, ConstantPoolEntry::MethodRef(x, y) => tgt(x) is ClassInfo && tgt(y) is NameAndType,
    ConstantPoolEntry::InterfaceMethodRef(x, y) => tgt(x) is ClassInfo && tgt(y) is NameAndType,
    ConstantPoolEntry::Dynamic(_, y) => tgt(y) is NameAndType, ConstantPoolEntry::InvokeDynamic(_, y) => tgt(y) is NameAndType,
    _ => true,
  }
}
spec fn plain(e: ConstantPoolEntry) -> bool { !(e is Zero) && !is_wide(flat(e)) }
spec fn wide(e: ConstantPoolEntry) -> bool { !(e is Zero) && is_wide(flat(e)) }
spec fn nonzero(p: Seq<CafeRc<ConstantPoolEntry>>) -> bool { 0 < p.len() <= 65535 && forall|j: int| 1 <= j < p.len() ==> !(*#[trigger] p[j] is Zero) }
proof fn lemma_wf_intro(p: Seq<CafeRc<ConstantPoolEntry>>, mv: u16) requires nonzero(p) ensures pool_linked(p) && f_all_valid(fp(p), mv) ==> wf(p) {
  if pool_linked(p) && f_all_valid(fp(p), mv) {
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] at_wf(p, mv, i) by { assert(at_linked(p, i)); assert(fp(p)[i] == flat(*p[i])); }
    assert(wf_mv(p, mv));
    reveal(wf);
  }
}
spec fn x_member<'a>(c: CafeCell<ConstantPoolRef<'a>>, m: CafeCell<ConstantPoolRef<'a>>) -> MemberRef<'a> { MemberRef { class_name: x_class(tgt(c)), name_and_type: x_nat(tgt(m)) } }
spec fn x_item<'a>(e: ConstantPoolEntry<'a>) -> Option<ConstantPoolItem<'a>> {
  match e {
    ConstantPoolEntry::Zero => None, ConstantPoolEntry::Utf8(_) => None, ConstantPoolEntry::Utf8Bytes(_) => None, ConstantPoolEntry::Unused => None,
    ConstantPoolEntry::Integer(v) => Some(ConstantPoolItem::LiteralConstant(LiteralConstant::Integer(v))), ConstantPoolEntry::Float(v) => Some(ConstantPoolItem::LiteralConstant(LiteralConstant::Float(v))),
    ConstantPoolEntry::Long(v) => Some(ConstantPoolItem::LiteralConstant(LiteralConstant::Long(v))), ConstantPoolEntry::Double(v) => Some(ConstantPoolItem::LiteralConstant(LiteralConstant::Double(v))),
    ConstantPoolEntry::String(x) => Some(ConstantPoolItem::LiteralConstant(x_lit(tgt(x)))),
    ConstantPoolEntry::ClassInfo(x) => Some(ConstantPoolItem::ClassInfo(x_utf8(tgt(x)))),
    ConstantPoolEntry::FieldRef(x, y) => Some(ConstantPoolItem::FieldRef(x_member(x, y))),
    ConstantPoolEntry::MethodRef(x, y) => Some(ConstantPoolItem::MethodRef(x_member(x, y))),
    ConstantPoolEntry::InterfaceMethodRef(x, y) => Some(ConstantPoolItem::InterfaceMethodRef(x_member(x, y))),
    ConstantPoolEntry::NameAndType(_, _) => Some(ConstantPoolItem::NameAndType(x_nat(e))),
    ConstantPoolEntry::MethodHandle(k, x) => Some(ConstantPoolItem::MethodHandle(x_mh(k, tgt(x)))),
    ConstantPoolEntry::MethodType(x) => Some(ConstantPoolItem::MethodType(x_utf8(tgt(x)))),
    ConstantPoolEntry::Dynamic(i, y) => Some(ConstantPoolItem::Dynamic(Dynamic { attr_index: i, name_and_type: x_nat(tgt(y)) })),
    ConstantPoolEntry::InvokeDynamic(i, y) => Some(ConstantPoolItem::InvokeDynamic(InvokeDynamic { attr_index: i, name_and_type: x_nat(tgt(y)) })),
    ConstantPoolEntry::ModuleInfo(x) => Some(ConstantPoolItem::ModuleInfo(x_utf8(tgt(x)))),
    ConstantPoolEntry::PackageInfo(x) => Some(ConstantPoolItem::PackageInfo(x_utf8(tgt(x)))),
  }
}
/// everything the accessors rely on when they follow the references of e
spec fn x_ok(e: ConstantPoolEntry) -> bool {
  match e {
    ConstantPoolEntry::String(x) => is_linked(x) && x_utf8_kind(tgt(x)),
    ConstantPoolEntry::ClassInfo(x) => is_linked(x) && tgt(x) is Utf8, ConstantPoolEntry::MethodType(x) => is_linked(x) && tgt(x) is Utf8,
    ConstantPoolEntry::ModuleInfo(x) => is_linked(x) && tgt(x) is Utf8, ConstantPoolEntry::PackageInfo(x) => is_linked(x) && tgt(x) is Utf8,
    ConstantPoolEntry::NameAndType(_, _) => x_nat_ok(e),
    ConstantPoolEntry::FieldRef(_, _) => x_member_ok(e), ConstantPoolEntry::MethodRef(_, _) => x_member_ok(e), ConstantPoolEntry::InterfaceMethodRef(_, _) => x_member_ok(e),
    ConstantPoolEntry::MethodHandle(_, x) => is_linked(x) && x_member_ok(tgt(x)),
    ConstantPoolEntry::Dynamic(_, y) => is_linked(y) && x_nat_ok(tgt(y)), ConstantPoolEntry::InvokeDynamic(_, y) => is_linked(y) && x_nat_ok(tgt(y)),
    _ => true,
  }
}
spec fn ent<'a>(p: Seq<CafeRc<ConstantPoolEntry<'a>>>, i: int) -> ConstantPoolEntry<'a> { *p[i] }
proof fn lemma_cls<'a>(p: Seq<CafeRc<ConstantPoolEntry<'a>>>, i: u16) requires wf(p), i < p.len(), *p[i as int] is ClassInfo
  ensures x_class_ok(*p[i as int]), x_class(*p[i as int]) == f_class(fp(p), i)
{ lemma_ok(p, i as int); lemma_ok(p, ref_a(fp(p)[i as int])); }
proof fn lemma_nat<'a>(p: Seq<CafeRc<ConstantPoolEntry<'a>>>, i: u16) requires wf(p), i < p.len(), *p[i as int] is NameAndType
  ensures x_nat_ok(*p[i as int]), x_nat(*p[i as int]) == f_nat(fp(p), i)
{ lemma_ok(p, i as int); lemma_ok(p, ref_a(fp(p)[i as int])); lemma_ok(p, ref_b(fp(p)[i as int])); }
proof fn lemma_mem<'a>(p: Seq<CafeRc<ConstantPoolEntry<'a>>>, i: u16, k: ReferenceKind) requires wf(p), i < p.len(), f_is_member(fp(p)[i as int])
  ensures x_member_ok(*p[i as int]), x_mh(k, *p[i as int]) == f_mh(fp(p), k, i), x_item(*p[i as int]) == f_item(fp(p), fp(p)[i as int])
{
  lemma_ok(p, i as int);
  let a = ref_a(fp(p)[i as int]) as u16; let b = ref_b(fp(p)[i as int]) as u16;
  assert(fp(p)[a as int] == flat(*p[a as int])); assert(fp(p)[b as int] == flat(*p[b as int]));
  lemma_cls(p, a); lemma_nat(p, b);
}
/// entry i of a well-formed pool: what following its references gives is what the flat pool says
proof fn lemma_item<'a>(p: Seq<CafeRc<ConstantPoolEntry<'a>>>, i: int) requires wf(p)
  ensures 0 < p.len() <= 65535, 0 <= i < p.len() ==> x_ok(*p[i]) && x_item(*p[i]) == f_item(fp(p), fp(p)[i]) && fp(p)[i] == flat(*p[i]) && (i > 0 ==> !(*p[i] is Zero))
{
  assert(0 < p.len() <= 65535) by { reveal(wf); }
  if 0 <= i < p.len() { lemma_item2(p, i); }
}
proof fn lemma_item2<'a>(p: Seq<CafeRc<ConstantPoolEntry<'a>>>, i: int) requires wf(p), 0 <= i < p.len() 
  ensures x_ok(*p[i]), x_item(*p[i]) == f_item(fp(p), fp(p)[i]), fp(p)[i] == flat(*p[i]), i > 0 ==> !(*p[i] is Zero)
{
  assert(p.len() <= 65535) by { reveal(wf); }
  lemma_ok(p, i);
  let e = fp(p)[i];
  let a = ref_a(e) as u16; let b = ref_b(e) as u16;
  if a < p.len() { assert(fp(p)[a as int] == flat(*p[a as int])); }
  if f_is_member(e) { lemma_mem(p, i as u16, ReferenceKind::GetField); }
  else if e is NameAndType { lemma_nat(p, i as u16); }
  else if e is MethodHandle { lemma_mem(p, a, e->MethodHandle_0); }
  else if e is Dynamic || e is InvokeDynamic { lemma_nat(p, a); }
  else if a < p.len() { lemma_ok(p, a as int); }
}
