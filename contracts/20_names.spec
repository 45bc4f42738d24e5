// ---- C08: names (JVMS 4.2). All predicates are over the characters of the name.
pub open spec fn s_uq_char(c: char) -> bool { c != '.' && c != ';' && c != '[' && c != '/' }
pub open spec fn s_uqm_char(c: char) -> bool { s_uq_char(c) && c != '<' && c != '>' }
pub open spec fn s_unqualified(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> s_uq_char(#[trigger] s[i]) }
pub open spec fn s_method_name(s: Seq<char>, init: bool, clinit: bool) -> bool {
  s.len() > 0 && ((init && s == "<init>"@) || (clinit && s == "<clinit>"@) || forall|i: int| 0 <= i < s.len() ==> s_uqm_char(#[trigger] s[i]))
}
/// every '/'-separated piece from position k on is an unqualified name
pub open spec fn s_binary_from(s: Seq<char>, k: int) -> bool decreases s.len() + 1 - k when 0 <= k <= s.len() {
  let e = next_sep(s, '/', k);
  if e < k || e > s.len() { false } else { s_unqualified(s.subrange(k, e)) && (e >= s.len() || s_binary_from(s, e + 1)) }
}
pub open spec fn s_binary(s: Seq<char>) -> bool { s_binary_from(s, 0) }
/// module names: no control characters, and '\\' ':' '@' only escaped by a backslash
pub open spec fn s_module_from(s: Seq<char>, k: int) -> bool decreases s.len() - k {
  if k >= s.len() { true }
  else if (s[k] as u32) <= 0x1f || s[k] == ':' || s[k] == '@' { false }
  else if s[k] == '\\' { k + 1 < s.len() && (s[k + 1] == '\\' || s[k + 1] == ':' || s[k + 1] == '@') && s_module_from(s, k + 2) }
  else { s_module_from(s, k + 1) }
}
pub open spec fn s_module(s: Seq<char>) -> bool { s_module_from(s, 0) }
proof fn lemma_lits()
  ensures ""@.len() == 0, "<init>"@.len() == 6, "<init>"@[0] == '<', "<clinit>"@.len() == 8, "<clinit>"@[0] == '<',
{ reveal_strlit(""); reveal_strlit("<init>"); reveal_strlit("<clinit>"); }
proof fn lemma_next_sep(s: Seq<char>, c: char, k: int) requires 0 <= k <= s.len()
  ensures k <= next_sep(s, c, k) <= s.len(), next_sep(s, c, k) < s.len() ==> s[next_sep(s, c, k)] == c,
    forall|i: int| k <= i < next_sep(s, c, k) ==> s[i] != c
  decreases s.len() - k
{ if k < s.len() && s[k] != c { lemma_next_sep(s, c, k + 1); } }
