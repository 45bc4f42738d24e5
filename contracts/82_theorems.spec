// ---- what the properties say, as consequences of the contracts
// C02
/// the items that remain after index i, in index order
spec fn s_items<'a>(f: Seq<FEntry<'a>>, i: int) -> Seq<ConstantPoolItem<'a>> decreases f.len() - i {
  if i < 0 || i + 1 >= f.len() { Seq::empty() } else { match f_item(f, f[i + 1]) { Some(x) => seq![x] + s_items(f, i + 1), None => s_items(f, i + 1) } }
}
proof fn lemma_items_skip(f: Seq<FEntry>, i: int, j: int)
  requires 0 <= i <= j < f.len(), forall|k: int| i < k <= j ==> f_item(f, #[trigger] f[k]) is None
  ensures s_items(f, i) == s_items(f, j)
  decreases j - i
{ hide(f_item); if i < j { assert(f_item(f, f[i + 1]) is None); lemma_items_skip(f, i + 1, j); } }
/// THEOREM C02: an iterator at index i that steps as the contract of `next` says yields what remains, in order, and then stops
proof fn theorem_items<'a>(f: Seq<FEntry<'a>>, i: int, r: Option<ConstantPoolItem<'a>>, j: int)
  requires 0 <= i < f.len(), item_step(f, i, r, j)
  ensures match r { Some(x) => s_items(f, i) == seq![x] + s_items(f, j), None => s_items(f, i) == Seq::<ConstantPoolItem>::empty() }
{
  hide(f_item);
  match r {
    Some(x) => { lemma_items_skip(f, i, j - 1); },
    None => { lemma_items_skip(f, i, f.len() - 1); },
  }
}
/// every entry is an item, but for texts and the placeholders
proof fn theorem_item_kinds<'a>(f: Seq<FEntry<'a>>, e: FEntry<'a>) ensures f_item(f, e) is Some <==> !(e is Zero || e is Unused || e is Utf8 || e is Utf8Bytes) { }
/// placeholders are where they belong: index 0, and after a long or double
spec fn place_ok(p: Seq<FEntry>, i: int) -> bool { (p[i] is Zero <==> i == 0) && (p[i] is Unused <==> i > 0 && is_wide(p[i - 1])) }
proof fn lemma_entry_real(b: Seq<u8>, ix: int, mv: u16) ensures match s_entry(b, ix, mv) { Some((e, _)) => !(e is Zero) && !(e is Unused), None => true } { hide(be2); hide(be4); hide(be8); }
proof fn lemma_places<'a>(b: Seq<u8>, ix: int, k: int, n: int, mv: u16, acc: Seq<FEntry<'a>>)
  requires acc.len() == k, k > 0, forall|i: int| 0 <= i < acc.len() ==> #[trigger] place_ok(acc, i), !is_wide(acc.last())
  ensures match s_entries(b, ix, k, n, mv, acc) { Some((p, _)) => (forall|i: int| 0 <= i < p.len() ==> #[trigger] place_ok(p, i)) && p.len() == (if n > k { n } else { k }), None => true }
  decreases n - k
{
  hide(s_entry);
  if k < n { lemma_entry_real(b, ix, mv); match s_entry(b, ix, mv) { Some((e, ix2)) => {
    let a1 = acc.push(e);
    assert forall|i: int| 0 <= i < a1.len() implies #[trigger] place_ok(a1, i) by { if i < k { assert(place_ok(acc, i)); assert(a1[i] == acc[i]); if i > 0 { assert(a1[i - 1] == acc[i - 1]); } } else { assert(a1[i - 1] == acc.last()); } }
    if is_wide(e) { if k + 1 < n {
      let a2 = a1.push(FEntry::Unused);
      assert forall|i: int| 0 <= i < a2.len() implies #[trigger] place_ok(a2, i) by { if i < k + 1 { assert(place_ok(a1, i)); assert(a2[i] == a1[i]); if i > 0 { assert(a2[i - 1] == a1[i - 1]); } } else { assert(a2[i - 1] == e); } }
      lemma_places(b, ix2, k + 2, n, mv, a2);
    } } else { lemma_places(b, ix2, k + 1, n, mv, a1); }
  }, None => {} } }
}
/// THEOREM C02/C05: in the pool of an accepted class the placeholders are index zero and the second slots, and nothing else
proof fn theorem_places(b: Seq<u8>, ix: int, mv: u16)
  ensures match s_pool(b, ix, mv) { Some((p, _)) => forall|i: int| 0 <= i < p.len() ==> #[trigger] place_ok(p, i), None => true }
{ hide(s_entries); hide(f_all_linkable); hide(f_all_valid);
  match s_u2(b, ix) { Some((n, i)) => { assert forall|i: int| 0 <= i < seq![FEntry::Zero].len() implies #[trigger] place_ok(seq![FEntry::Zero], i) by {}; lemma_places(b, i, 1, n as int, mv, seq![FEntry::Zero]); }, None => {} } }
// C09
/// where instruction k ends, if the whole ends at `end`
spec fn op_end<'a>(s: Seq<(usize, Opcode<'a>)>, k: int, end: int) -> int { if k + 1 < s.len() { s[k + 1].0 as int } else { end } }
/// instruction k is what the byte at its offset denotes, and takes up exactly the bytes up to the next one
spec fn op_exact<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, s: Seq<(usize, Opcode<'a>)>, k: int, end: int) -> bool { 0 <= s[k].0 < b.len() && s_op(b[s[k].0 as int], b, s[k].0 + 1, p) == Some((s[k].1, op_end(s, k, end))) && s[k].0 < op_end(s, k, end) <= b.len() }
spec fn ops_exact<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, s: Seq<(usize, Opcode<'a>)>, end: int) -> bool {
  (s.len() == 0 ==> end == 0) && (s.len() > 0 ==> s[0].0 == 0) && forall|k: int| 0 <= k < s.len() ==> #[trigger] op_exact(b, p, s, k, end)
}
proof fn lemma_ops_exact<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, acc: Seq<(usize, Opcode<'a>)>)
  requires 0 <= ix <= b.len() <= 0x7fff_ffff_ffff_ffff, ops_exact(b, p, acc, ix)
  ensures match s_ops(b, ix, p, acc) { Some(s) => ops_exact(b, p, s, b.len() as int), None => true }
  decreases b.len() - ix
{
  hide(s_op);
  if ix < b.len() { match s_op(b[ix], b, ix + 1, p) { Some((o, ix2)) => if ix < ix2 <= b.len() {
    let a = acc.push((ix as usize, o));
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] op_exact(b, p, a, k, ix2) by {
      if k < acc.len() { assert(op_exact(b, p, acc, k, ix)); assert(a[k] == acc[k]); if k + 1 < acc.len() { assert(a[k + 1] == acc[k + 1]); } }
    }
    lemma_ops_exact(b, ix2, p, a);
  }, None => {} } }
}
/// THEOREM C09: the decoded instructions partition the code array, and each is the one its bytes denote
proof fn theorem_partition<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>)
  requires b.len() <= 0x7fff_ffff_ffff_ffff
  ensures match s_ops(b, 0, p, Seq::empty()) { Some(s) => ops_exact(b, p, s, b.len() as int), None => true }
{ lemma_ops_exact(b, 0, p, Seq::empty()); }
/// ... and the decoding is the only one: an array that can be partitioned is accepted, as that partition
proof fn lemma_ops_unique<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, s: Seq<(usize, Opcode<'a>)>, k: int)
  requires ops_exact(b, p, s, b.len() as int), 0 <= k <= s.len(), b.len() <= 0x7fff_ffff_ffff_ffff
  ensures s_ops(b, if k < s.len() { s[k].0 as int } else { b.len() as int }, p, s.take(k)) == Some(s)
  decreases s.len() - k
{
  hide(s_op);
  if k < s.len() {
    assert(op_exact(b, p, s, k, b.len() as int));
    lemma_ops_unique(b, p, s, k + 1);
    assert(s.take(k).push(s[k]) =~= s.take(k + 1));
  } else { assert(s.take(k) =~= s); }
}
proof fn theorem_partition_unique<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, s: Seq<(usize, Opcode<'a>)>)
  requires ops_exact(b, p, s, b.len() as int), b.len() <= 0x7fff_ffff_ffff_ffff
  ensures s_ops(b, 0, p, Seq::empty()) == Some(s)
{ lemma_ops_unique(b, p, s, 0); assert(s.take(0) =~= Seq::<(usize, Opcode<'a>)>::empty()); }
// C17
spec fn fields_distinct(v: Seq<FieldInfo>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> field_key(#[trigger] v[i]) != field_key(#[trigger] v[j]) }
spec fn methods_distinct(v: Seq<MethodInfo>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> method_key(#[trigger] v[i]) != method_key(#[trigger] v[j]) }
/// THEOREM C17: the fields (methods) of an accepted class differ pairwise in name or descriptor
proof fn theorem_fields_distinct<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, ix: int, n: int, acc: Seq<FieldInfo<'a>>)
  requires fields_distinct(acc)
  ensures match s_fields_n(b, p, pb, ix, n, acc) { Some((v, _)) => fields_distinct(v), None => true }
  decreases n
{
  hide(s_attrs); hide(field_keys); hide(fd_key); hide(s_cp_utf8); hide(s_cp_fd); hide(be2);
  if n > 0 { match s_field(b, ix, p, pb, acc) { Some((x, i)) => {
    lemma_field_keys_are(acc, field_key(x));
    assert(fields_distinct(acc.push(x))) by { assert forall|i: int, j: int| 0 <= i < j < acc.push(x).len() implies field_key(#[trigger] acc.push(x)[i]) != field_key(#[trigger] acc.push(x)[j]) by { if j == acc.len() { assert(acc[i] == acc.push(x)[i]); } else { assert(acc[i] == acc.push(x)[i] && acc[j] == acc.push(x)[j]); } } }
    theorem_fields_distinct(b, p, pb, i, n - 1, acc.push(x)); }, None => {} } }
}
proof fn theorem_methods_distinct<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, iface: bool, mv: u16, ix: int, n: int, acc: Seq<MethodInfo<'a>>)
  requires methods_distinct(acc)
  ensures match s_methods_n(b, p, pb, iface, mv, ix, n, acc) { Some((v, _)) => methods_distinct(v), None => true }
  decreases n
{
  hide(s_attrs); hide(method_keys); hide(md_key); hide(s_cp_utf8); hide(s_cp_md); hide(be2); hide(s_method_name); hide(init_ok);
  if n > 0 { match s_method(b, ix, p, pb, iface, mv, acc) { Some((x, i)) => {
    lemma_method_keys_are(acc, method_key(x));
    assert(methods_distinct(acc.push(x))) by { assert forall|i: int, j: int| 0 <= i < j < acc.push(x).len() implies method_key(#[trigger] acc.push(x)[i]) != method_key(#[trigger] acc.push(x)[j]) by { if j == acc.len() { assert(acc[i] == acc.push(x)[i]); } else { assert(acc[i] == acc.push(x)[i] && acc[j] == acc.push(x)[j]); } } }
    theorem_methods_distinct(b, p, pb, iface, mv, i, n - 1, acc.push(x)); }, None => {} } }
}
// C08
/// a binary name: unqualified names between single slashes, none of them empty
spec fn g_binary(s: Seq<char>, k: int) -> bool {
  0 <= k < s.len() && s[k] != '/' && s.last() != '/'
  && (forall|i: int| k <= i < s.len() ==> (#[trigger] s[i]) != '.' && s[i] != ';' && s[i] != '[')
  && (forall|i: int| k <= i < s.len() - 1 ==> (#[trigger] s[i]) == '/' ==> s[i + 1] != '/')
}
/// THEOREM C08: binary names are exactly those
proof fn theorem_binary_name(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures s_binary_from(s, k) == g_binary(s, k) decreases s.len() - k
{
  lemma_next_sep(s, '/', k);
  let e = next_sep(s, '/', k); let n = s.len() as int; let t = s.subrange(k, e);
  if e < n { theorem_binary_name(s, e + 1); }
  if s_unqualified(t) {
    assert forall|i: int| k <= i < e implies s_uq_char(#[trigger] s[i]) by { assert(s_uq_char(t[i - k])); }
    if e < n && g_binary(s, e + 1) { assert(g_binary(s, k)); }
  }
  if g_binary(s, k) {
    if e == k { assert(s[k] == '/'); }
    assert(s_unqualified(t)) by { assert forall|i: int| 0 <= i < t.len() implies s_uq_char(#[trigger] t[i]) by { assert(t[i] == s[k + i]); } }
    if e < n { assert(s[n - 1] != '/'); assert(e + 1 < n); assert(g_binary(s, e + 1)); }
  }
}
