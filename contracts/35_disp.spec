// ---- C18: the text of descriptors and class names
pub open spec fn brackets(n: int) -> Seq<char> { Seq::new(n as nat, |i: int| '[') }
pub open spec fn d_ft(t: FieldType) -> Seq<char> {
  match t {
    FieldType::Byte => seq!['B'], FieldType::Char => seq!['C'], FieldType::Double => seq!['D'], FieldType::Float => seq!['F'],
    FieldType::Integer => seq!['I'], FieldType::Long => seq!['J'], FieldType::Short => seq!['S'], FieldType::Boolean => seq!['Z'],
    FieldType::Object(c) => seq!['L'] + cv(c.0) + seq![';'],
  }
}
pub open spec fn d_fd(d: FieldDescriptor) -> Seq<char> { brackets(d.dimensions as int) + d_ft(d.field_type) }
pub open spec fn d_fds(s: Seq<FieldDescriptor>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { d_fds(s.drop_last()) + d_fd(s.last()) } }
pub open spec fn d_rd(d: ReturnDescriptor) -> Seq<char> { match d { ReturnDescriptor::Void => seq!['V'], ReturnDescriptor::Return(f) => d_fd(f) } }
pub open spec fn d_md(d: MethodDescriptor) -> Seq<char> { seq!['('] + d_fds(d.parameters@) + seq![')'] + d_rd(d.return_type) }
proof fn lemma_repeat(n: nat) ensures srepeat("["@, n) =~= brackets(n as int) decreases n { reveal_strlit("["); if n > 0 { lemma_repeat((n - 1) as nat); } }
proof fn lemma_d_lits()
  ensures "B"@ =~= seq!['B'], "C"@ =~= seq!['C'], "D"@ =~= seq!['D'], "F"@ =~= seq!['F'], "I"@ =~= seq!['I'], "J"@ =~= seq!['J'], "S"@ =~= seq!['S'],
    "Z"@ =~= seq!['Z'], "L"@ =~= seq!['L'], ";"@ =~= seq![';'], "V"@ =~= seq!['V'], "("@ =~= seq!['('], ")"@ =~= seq![')'], "["@ =~= seq!['[']
{ reveal_strlit("B"); reveal_strlit("C"); reveal_strlit("D"); reveal_strlit("F"); reveal_strlit("I"); reveal_strlit("J"); reveal_strlit("S"); reveal_strlit("Z");
  reveal_strlit("L"); reveal_strlit(";"); reveal_strlit("V"); reveal_strlit("("); reveal_strlit(")"); reveal_strlit("["); }
/// a parsed field descriptor spells the text it was parsed from
proof fn lemma_rt_fd<'a>(c: Cow<'a, str>, k: int) requires 0 <= k <= cv(c).len()
  ensures match s_fd(c, k) { Some((d, e)) => d_fd(d) =~= cv(c).subrange(k, e), None => true }
{
  let s = cv(c);
  lemma_dims(s, k); lemma_fd(c, k);
  let p = k + dims(s, k);
  if p < s.len() {
    lemma_cend(s, p + 1);
    match s_cend(s, p + 1) { Some(e) => { lemma_boff_sub(s, p + 1, e); lemma_boff_mono(s, 0, p + 1); lemma_boff_mono(s, e, s.len() as int); lemma_boff_ends(s); lemma_cow_sub(c, p + 1, e); }, None => {} }
  }
}
proof fn lemma_cow_sub<'a>(c: Cow<'a, str>, a: int, b: int) requires 0 <= a <= b <= cv(c).len() ensures cv(cow_sub(c, a, b)) == cv(c).subrange(a, b)
{ let s = cv(c); lemma_boff_sub(s, a, b); lemma_boff_mono(s, 0, a); lemma_boff_mono(s, b, s.len() as int); lemma_boff_ends(s); assert(blen(s.subrange(a, b)) <= blen(s)); }
proof fn lemma_rt_params<'a>(c: Cow<'a, str>, k: int, acc: Seq<FieldDescriptor<'a>>) requires 0 <= k <= cv(c).len()
  ensures match s_params(c, k, acc) { Some((ps, e)) => k <= e < cv(c).len() && cv(c)[e] == ')' && d_fds(ps) =~= d_fds(acc) + cv(c).subrange(k, e), None => true }
  decreases cv(c).len() - k
{
  if k < cv(c).len() && cv(c)[k] == ')' { assert(cv(c).subrange(k, k) =~= Seq::<char>::empty()); }
  else {
    lemma_fd(c, k); lemma_rt_fd(c, k);
    match s_fd(c, k) { None => {}, Some((d, e)) => {
      lemma_rt_params(c, e, acc.push(d));
      assert(acc.push(d).drop_last() =~= acc);
      match s_params(c, e, acc.push(d)) { None => {}, Some((ps, e2)) => { assert(cv(c).subrange(k, e2) =~= cv(c).subrange(k, e) + cv(c).subrange(e, e2)); } }
    } }
  }
}
proof fn lemma_rt_ret<'a>(c: Cow<'a, str>, k: int) requires 0 <= k <= cv(c).len()
  ensures match s_ret(c, k) { Some((d, e)) => k < e <= cv(c).len() && d_rd(d) =~= cv(c).subrange(k, e), None => true }
{ lemma_rt_fd(c, k); lemma_fd(c, k); reveal_strlit("V");
  if cv(c).skip(k) == "V"@ { assert(cv(c).skip(k).len() == 1); assert(cv(c)[k] == cv(c).skip(k)[0]); } }
/// a parsed method descriptor spells the text it was parsed from (ps: its parameters, closed at e)
proof fn lemma_md_text<'a>(c: Cow<'a, str>, k: int, ps: Seq<FieldDescriptor<'a>>, e: int)
  requires 0 <= k < e < cv(c).len(), cv(c)[k] == '(', cv(c)[e] == ')', d_fds(ps) == d_fds(Seq::<FieldDescriptor<'a>>::empty()) + cv(c).subrange(k + 1, e)
  ensures match s_ret(c, e + 1) { Some((r, e2)) => seq!['('] + d_fds(ps) + seq![')'] + d_rd(r) =~= cv(c).subrange(k, e2), None => true }
{
  lemma_rt_ret(c, e + 1);
  assert(d_fds(Seq::<FieldDescriptor<'a>>::empty()) =~= Seq::<char>::empty());
  match s_ret(c, e + 1) { None => {}, Some((r, e2)) => {
    assert(cv(c).subrange(k, e2) =~= seq!['('] + cv(c).subrange(k + 1, e) + seq![')'] + cv(c).subrange(e + 1, e2));
  } }
}
// ---- the same text again gives an equal value (equality of texts, whether borrowed or owned)
pub open spec fn eq_ft(a: FieldType, b: FieldType) -> bool { match (a, b) { (FieldType::Object(x), FieldType::Object(y)) => cv(x.0) == cv(y.0), _ => a == b } }
pub open spec fn eq_fd(a: FieldDescriptor, b: FieldDescriptor) -> bool { a.dimensions == b.dimensions && eq_ft(a.field_type, b.field_type) }
pub open spec fn eq_fds(a: Seq<FieldDescriptor>, b: Seq<FieldDescriptor>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> eq_fd(#[trigger] a[i], b[i]) }
pub open spec fn eq_rd(a: ReturnDescriptor, b: ReturnDescriptor) -> bool { match (a, b) { (ReturnDescriptor::Return(x), ReturnDescriptor::Return(y)) => eq_fd(x, y), _ => a == b } }
proof fn lemma_again_fd<'a, 'b>(c: Cow<'a, str>, d: Cow<'b, str>, k: int) requires cv(c) == cv(d), 0 <= k <= cv(c).len()
  ensures match (s_fd(c, k), s_fd(d, k)) { (Some((x, e)), Some((y, e2))) => eq_fd(x, y) && e == e2, (None, None) => true, _ => false }
{
  let s = cv(c); lemma_dims(s, k); let p = k + dims(s, k);
  if p < s.len() { lemma_cend(s, p + 1); match s_cend(s, p + 1) { Some(e) => { lemma_cow_sub(c, p + 1, e); lemma_cow_sub(d, p + 1, e); }, None => {} } }
}
proof fn lemma_again_params<'a, 'b>(c: Cow<'a, str>, d: Cow<'b, str>, k: int, x: Seq<FieldDescriptor<'a>>, y: Seq<FieldDescriptor<'b>>)
  requires cv(c) == cv(d), 0 <= k <= cv(c).len(), eq_fds(x, y)
  ensures match (s_params(c, k, x), s_params(d, k, y)) { (Some((a, e)), Some((b, e2))) => eq_fds(a, b) && e == e2 && k <= e < cv(c).len(), (None, None) => true, _ => false }
  decreases cv(c).len() - k
{
  lemma_again_fd(c, d, k); lemma_fd(c, k);
  if k < cv(c).len() && cv(c)[k] == ')' {} else {
    match (s_fd(c, k), s_fd(d, k)) { (Some((p, e)), Some((q, _))) => { lemma_again_params(c, d, e, x.push(p), y.push(q)); }, _ => {} }
  }
}
proof fn lemma_again_ret<'a, 'b>(c: Cow<'a, str>, d: Cow<'b, str>, k: int) requires cv(c) == cv(d), 0 <= k <= cv(c).len()
  ensures match (s_ret(c, k), s_ret(d, k)) { (Some((x, e)), Some((y, e2))) => eq_rd(x, y) && e == e2, (None, None) => true, _ => false }
{ lemma_again_fd(c, d, k); }
proof fn lemma_again_md<'a, 'b>(c: Cow<'a, str>, d: Cow<'b, str>, k: int) requires cv(c) == cv(d), 0 <= k < cv(c).len(), cv(c)[k] == '('
  ensures (s_md(c, k) is Some) == (s_md(d, k) is Some),
    match (s_params(c, k + 1, Seq::empty()), s_params(d, k + 1, Seq::empty())) { (Some((a, e)), Some((b, e2))) => eq_fds(a, b) && e == e2
      && (match (s_ret(c, e + 1), s_ret(d, e + 1)) { (Some((x, f)), Some((y, f2))) => eq_rd(x, y) && f == f2, (None, None) => true, _ => false }), (None, None) => true, _ => false }
{
  lemma_again_params(c, d, k + 1, Seq::empty(), Seq::empty());
  match s_params(c, k + 1, Seq::empty()) { Some((_, e)) => { lemma_again_ret(c, d, e + 1); }, None => {} }
}
proof fn lemma_fd_out(o: Seq<char>, d: FieldDescriptor) ensures o + brackets(d.dimensions as int) + d_ft(d.field_type) =~= o + d_fd(d), blen("["@) == 1
{ lemma_d_lits(); assert("["@.drop_last() =~= Seq::<char>::empty()); assert(blen("["@.drop_last()) == 0); }
proof fn lemma_md_out(o: Seq<char>, d: MethodDescriptor) ensures o + seq!['('] + d_fds(d.parameters@) + seq![')'] + d_rd(d.return_type) =~= o + d_md(d)
{ }
proof fn lemma_ft_out(o: Seq<char>, t: FieldType) ensures match t { FieldType::Object(c) => o + seq!['L'] + cv(c.0) + seq![';'] =~= o + d_ft(t), _ => true }
{ }
