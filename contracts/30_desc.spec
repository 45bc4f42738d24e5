// ---- C07: class names and descriptors (JVMS 4.2.1, 4.3). Positions are character indexes into the
// text; `boff` maps them to the byte offsets the code uses.
pub open spec fn is_seg_stop(c: char) -> bool { c == '/' || c == ';' || c == '.' || c == '[' || c == '<' || c == '>' }
/// first position >= k holding a character that cannot be part of a class name segment
pub open spec fn seg_end(s: Seq<char>, k: int) -> int decreases s.len() - k { if k >= s.len() || is_seg_stop(s[k]) { k } else { seg_end(s, k + 1) } }
proof fn lemma_seg_end(s: Seq<char>, k: int) requires 0 <= k <= s.len()
  ensures k <= seg_end(s, k) <= s.len(), seg_end(s, k) < s.len() ==> is_seg_stop(s[seg_end(s, k)]),
  decreases s.len() - k
{ if k < s.len() && !is_seg_stop(s[k]) { lemma_seg_end(s, k + 1); } }
proof fn lemma_seg_end_skip(s: Seq<char>, k: int, j: int) requires 0 <= k <= s.len(), 0 <= j <= s.len() - k
  ensures seg_end(s.skip(k), j) + k == seg_end(s, k + j)
  decreases s.len() - k - j
{ if k + j < s.len() && !is_seg_stop(s[k + j]) { lemma_seg_end_skip(s, k, j + 1); } }
/// one segment at the start of s: its length, and the '/' or ';' after it (None at the end of the text)
pub open spec fn s_seg(s: Seq<char>) -> Option<(int, Option<char>)> {
  let e = seg_end(s, 0);
  if e >= s.len() { Some((s.len() as int, None)) }
  else if e > 0 && (s[e] == '/' || s[e] == ';') { Some((e, Some(s[e]))) }
  else { None }
}
/// class name: non-empty '/'-separated segments without . ; [ < >
pub open spec fn s_cname_from(s: Seq<char>, k: int) -> bool decreases s.len() - k {
  let e = seg_end(s, k);
  if k < 0 || e <= k { false } else { e >= s.len() || (s[e] == '/' && s_cname_from(s, e + 1)) }
}
pub open spec fn s_cname(s: Seq<char>) -> bool { s_cname_from(s, 0) }
/// a class name starting at k and terminated by ';': the position of the ';'
pub open spec fn s_cend(s: Seq<char>, k: int) -> Option<int> decreases s.len() - k {
  let e = seg_end(s, k);
  if k < 0 || e <= k || e >= s.len() { None }
  else if s[e] == ';' { Some(e) }
  else if s[e] == '/' { s_cend(s, e + 1) }
  else { None }
}
proof fn lemma_cend(s: Seq<char>, k: int) requires 0 <= k <= s.len()
  ensures match s_cend(s, k) { Some(e) => k < e < s.len() && s[e] == ';', None => true }
  decreases s.len() - k
{ lemma_seg_end(s, k); let e = seg_end(s, k); if e > k && e < s.len() && s[e] == '/' { lemma_cend(s, e + 1); } }
/// part of a text: a slice of a borrowed text is borrowed, of an owned text owned
pub open spec fn cow_sub<'a>(c: Cow<'a, str>, a: int, b: int) -> Cow<'a, str> {
  match c { Cow::Borrowed(s) => Cow::Borrowed(str_of(s@.subrange(a, b))), Cow::Owned(s) => Cow::Owned(string_of(s@.subrange(a, b))) }
}
/// number of '[' from position k on
pub open spec fn dims(s: Seq<char>, k: int) -> int decreases s.len() - k { if k >= s.len() || s[k] != '[' { 0 } else { 1 + dims(s, k + 1) } }
proof fn lemma_dims(s: Seq<char>, k: int) requires 0 <= k <= s.len()
  ensures 0 <= dims(s, k) <= s.len() - k, k + dims(s, k) < s.len() ==> s[k + dims(s, k)] != '[',
    boff(s, k + dims(s, k)) == boff(s, k) + dims(s, k),
    forall|i: int| k <= i < k + dims(s, k) ==> s[i] == '['
  decreases s.len() - k
{ if k < s.len() && s[k] == '[' { lemma_dims(s, k + 1); lemma_boff_step(s, k); } }
pub open spec fn s_base<'a>(c: char) -> Option<FieldType<'a>> {
  if c == 'B' { Some(FieldType::Byte) } else if c == 'C' { Some(FieldType::Char) } else if c == 'D' { Some(FieldType::Double) }
  else if c == 'F' { Some(FieldType::Float) } else if c == 'I' { Some(FieldType::Integer) } else if c == 'J' { Some(FieldType::Long) }
  else if c == 'S' { Some(FieldType::Short) } else if c == 'Z' { Some(FieldType::Boolean) } else { None }
}
/// field descriptor at position k: the descriptor and the position after it
spec fn s_fd<'a>(c: Cow<'a, str>, k: int) -> Option<(FieldDescriptor<'a>, int)> {
  let s = cv(c);
  let d = dims(s, k);
  let p = k + d;
  require d <= 255 && p < s.len();
  if s[p] == 'L' {
    let e = s_cend(s, p + 1)?;
    Some((FieldDescriptor { dimensions: d as u8, field_type: FieldType::Object(ClassName(cow_sub(c, p + 1, e))) }, e + 1))
  } else {
    let t = s_base(s[p])?;
    Some((FieldDescriptor { dimensions: d as u8, field_type: t }, p + 1))
  }
}
spec fn s_fd_end<'a>(c: Cow<'a, str>, k: int) -> int { match s_fd(c, k) { Some((_, e)) => e, None => k } }
proof fn lemma_fd<'a>(c: Cow<'a, str>, k: int) requires 0 <= k <= cv(c).len()
  ensures match s_fd(c, k) { Some((_, e)) => k < e <= cv(c).len(), None => true }
{ lemma_dims(cv(c), k); let p = k + dims(cv(c), k); if p < cv(c).len() { lemma_cend(cv(c), p + 1); } }
/// parameters from position k up to the ')'; the result position is that of the ')'
spec fn s_params<'a>(c: Cow<'a, str>, k: int, acc: Seq<FieldDescriptor<'a>>) -> Option<(Seq<FieldDescriptor<'a>>, int)> decreases cv(c).len() - k {
  if 0 <= k < cv(c).len() && cv(c)[k] == ')' { Some((acc, k)) }
  else { match s_fd(c, k) { None => None, Some((d, e)) => if e <= k || e > cv(c).len() { None } else { s_params(c, e, acc.push(d)) } } }
}
spec fn s_ret<'a>(c: Cow<'a, str>, k: int) -> Option<(ReturnDescriptor<'a>, int)> {
  if cv(c).skip(k) == "V"@ { Some((ReturnDescriptor::Void, k + 1)) }
  else { match s_fd(c, k) { None => None, Some((d, e)) => Some((ReturnDescriptor::Return(d), e)) } }
}
spec fn s_md<'a>(c: Cow<'a, str>, k: int) -> Option<(MethodDescriptor<'a>, int)> {
  require 0 <= k < cv(c).len() && cv(c)[k] == '(';
  let (ps, e) = s_params(c, k + 1, Seq::empty())?;
  let (r, e2) = s_ret(c, e + 1)?;
  Some((MethodDescriptor { parameters: vec_of(ps), return_type: r }, e2))
}
/// the whole text is one field / method / return descriptor
spec fn s_fd_all<'a>(c: Cow<'a, str>) -> Option<FieldDescriptor<'a>> { match s_fd(c, 0) { Some((d, e)) => if e == cv(c).len() { Some(d) } else { None }, None => None } }
spec fn s_md_all<'a>(c: Cow<'a, str>) -> Option<MethodDescriptor<'a>> { match s_md(c, 0) { Some((d, e)) => if e == cv(c).len() { Some(d) } else { None }, None => None } }
spec fn s_rd_all<'a>(c: Cow<'a, str>) -> Option<ReturnDescriptor<'a>> { match s_ret(c, 0) { Some((d, e)) => if e == cv(c).len() { Some(d) } else { None }, None => None } }
spec fn s_is_fd(s: Seq<char>) -> bool { s_fd_all(Cow::Borrowed(str_of(s))) is Some }
spec fn s_is_md(s: Seq<char>) -> bool { s_md_all(Cow::Borrowed(str_of(s))) is Some }
spec fn s_is_rd(s: Seq<char>) -> bool { s_rd_all(Cow::Borrowed(str_of(s))) is Some }
spec fn s_is_array(s: Seq<char>) -> bool { s_is_fd(s) && s[0] == '[' }
/// lengths in bytes of the canonical text of a descriptor
spec fn ft_blen(t: FieldType) -> int { match t { FieldType::Object(c) => 2 + blen(cv(c.0)), _ => 1 } }
spec fn fd_blen(d: FieldDescriptor) -> int { d.dimensions as int + ft_blen(d.field_type) }
spec fn fds_blen(s: Seq<FieldDescriptor>) -> int decreases s.len() { if s.len() == 0 { 0 } else { fds_blen(s.drop_last()) + fd_blen(s.last()) } }
proof fn lemma_fds_blen_mono(s: Seq<FieldDescriptor>, k: int) requires 0 <= k <= s.len() ensures fds_blen(s.take(k)) <= fds_blen(s), 0 <= fds_blen(s.take(k)) decreases s.len() {
  if k == s.len() { assert(s.take(k) =~= s); }
  if s.len() > 0 {
    lemma_blen_fd(s.last());
    if k < s.len() { lemma_fds_blen_mono(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); }
    else { lemma_fds_blen_mono(s.drop_last(), k - 1); assert(s.drop_last().take(k - 1) =~= s.drop_last()); }
  }
}
proof fn lemma_blen_fd(d: FieldDescriptor) ensures fd_blen(d) >= 1 { match d.field_type { FieldType::Object(c) => { lemma_blen_nonneg(cv(c.0)); }, _ => {} } }
spec fn rd_blen(d: ReturnDescriptor) -> int { match d { ReturnDescriptor::Void => 1, ReturnDescriptor::Return(f) => fd_blen(f) } }
spec fn md_blen(d: MethodDescriptor) -> int { 2 + fds_blen(d.parameters@) + rd_blen(d.return_type) }
proof fn lemma_fds_push(s: Seq<FieldDescriptor>, d: FieldDescriptor) ensures fds_blen(s.push(d)) == fds_blen(s) + fd_blen(d) { assert(s.push(d).drop_last() =~= s); }
proof fn lemma_boff_inj(s: Seq<char>, a: int, b: int) requires 0 <= a <= s.len(), 0 <= b <= s.len(), boff(s, a) == boff(s, b) ensures a == b
{ if a < b { lemma_boff_mono(s, a, b); } else if b < a { lemma_boff_mono(s, b, a); } }
proof fn lemma_boff_le(s: Seq<char>) ensures forall|k: int| 0 <= k < s.len() ==> #[trigger] boff(s, k) < blen(s)
{ assert forall|k: int| 0 <= k < s.len() implies #[trigger] boff(s, k) < blen(s) by { lemma_boff_mono(s, k, s.len() as int); lemma_boff_ends(s); } }
proof fn lemma_blen_rd(d: ReturnDescriptor) ensures rd_blen(d) >= 1 { match d { ReturnDescriptor::Return(f) => lemma_blen_fd(f), _ => {} } }
