// ---- C07: the grammar, written as the set of texts it describes, and the readers' specifications decide exactly that set
/// a class name in s[k..e): names without . ; [ < > between single slashes, none of them empty
spec fn g_name(s: Seq<char>, k: int, e: int) -> bool {
  0 <= k < e <= s.len() && s[k] != '/' && s[e - 1] != '/'
  && (forall|i: int| k <= i < e ==> (#[trigger] s[i]) == '/' || !is_seg_stop(s[i]))
  && (forall|i: int| k <= i < e - 1 ==> (#[trigger] s[i]) == '/' ==> s[i + 1] != '/')
}
spec fn g_cname(s: Seq<char>) -> bool { g_name(s, 0, s.len() as int) }
proof fn lemma_seg_free(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures forall|i: int| k <= i < seg_end(s, k) ==> !is_seg_stop(#[trigger] s[i]) decreases s.len() - k
{ if k < s.len() && !is_seg_stop(s[k]) { lemma_seg_free(s, k + 1); } }
proof fn lemma_g_cname(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures s_cname_from(s, k) == g_name(s, k, s.len() as int) decreases s.len() - k
{
  lemma_seg_end(s, k); lemma_seg_free(s, k);
  let e = seg_end(s, k); let n = s.len() as int;
  if e > k && e < n && s[e] == '/' {
    lemma_g_cname(s, e + 1);
    if g_name(s, k, n) { assert(s[n - 1] != '/'); assert(e + 1 < n); assert(g_name(s, e + 1, n)); }
    if g_name(s, e + 1, n) {
      assert(s[k] != '/') by { assert(!is_seg_stop(s[k])); }
      assert forall|i: int| k <= i < n implies (#[trigger] s[i]) == '/' || !is_seg_stop(s[i]) by { if i < e { assert(!is_seg_stop(s[i])); } }
      assert forall|i: int| k <= i < n - 1 && (#[trigger] s[i]) == '/' implies s[i + 1] != '/' by { if i < e { assert(!is_seg_stop(s[i])); } }
    }
  } else if e > k && e >= n {
    assert(!is_seg_stop(s[k]) && !is_seg_stop(s[n - 1]));
    assert forall|i: int| k <= i < n implies (#[trigger] s[i]) == '/' || !is_seg_stop(s[i]) by { assert(!is_seg_stop(s[i])); }
    assert forall|i: int| k <= i < n - 1 && (#[trigger] s[i]) == '/' implies s[i + 1] != '/' by { assert(!is_seg_stop(s[i])); }
  } else if k < n { assert(is_seg_stop(s[e])); if e == k { } }
}
proof fn lemma_g_cend(s: Seq<char>, k: int, e: int) requires 0 <= k <= s.len() ensures s_cend(s, k) == Some(e) <==> g_name(s, k, e) && e < s.len() && s[e] == ';' decreases s.len() - k
{
  lemma_seg_end(s, k); lemma_seg_free(s, k);
  let q = seg_end(s, k); let n = s.len() as int;
  if q > k && q < n && s[q] == '/' {
    lemma_g_cend(s, q + 1, e); lemma_cend(s, q + 1);
    if g_name(s, k, e) && e < n && s[e] == ';' {
      if e <= q { if e < q { assert(!is_seg_stop(s[e])); } assert(false); }
      assert(s[e - 1] != '/'); assert(q + 1 < e); assert(s[q] == '/'); assert(g_name(s, q + 1, e));
    }
    if g_name(s, q + 1, e) {
      assert(s[k] != '/') by { assert(!is_seg_stop(s[k])); }
      assert forall|i: int| k <= i < e implies (#[trigger] s[i]) == '/' || !is_seg_stop(s[i]) by { if i < q { assert(!is_seg_stop(s[i])); } }
      assert forall|i: int| k <= i < e - 1 && (#[trigger] s[i]) == '/' implies s[i + 1] != '/' by { if i < q { assert(!is_seg_stop(s[i])); } }
    }
  } else if q > k && q < n && s[q] == ';' {
    assert(!is_seg_stop(s[k]) && !is_seg_stop(s[q - 1]));
    assert forall|i: int| k <= i < q implies (#[trigger] s[i]) == '/' || !is_seg_stop(s[i]) by { assert(!is_seg_stop(s[i])); }
    assert forall|i: int| k <= i < q - 1 && (#[trigger] s[i]) == '/' implies s[i + 1] != '/' by { assert(!is_seg_stop(s[i])); }
    if g_name(s, k, e) && e < n && s[e] == ';' { if e < q { assert(!is_seg_stop(s[e])); } if e > q { assert(s[q] == '/' || !is_seg_stop(s[q])); } }
  } else if g_name(s, k, e) && e < n && s[e] == ';' {
    // q is k, or the end, or holds another stop: each contradicts the name
    if q < e { assert(s[q] == '/' || !is_seg_stop(s[q])); assert(is_seg_stop(s[q])); } else { if e < q { assert(!is_seg_stop(s[e])); } }
  }
}
/// THEOREM C07: class names on their own are the names of the grammar
proof fn theorem_class_name(s: Seq<char>) ensures s_cname(s) <==> g_cname(s) { lemma_g_cname(s, 0); }
// the values of the grammar
spec fn g_ft(t: FieldType) -> bool { match t { FieldType::Object(c) => g_cname(cv(c.0)), _ => true } }
spec fn g_fd(d: FieldDescriptor) -> bool { g_ft(d.field_type) }
spec fn g_fds(s: Seq<FieldDescriptor>) -> bool { forall|i: int| 0 <= i < s.len() ==> g_fd(#[trigger] s[i]) }
spec fn g_rd(d: ReturnDescriptor) -> bool { match d { ReturnDescriptor::Return(f) => g_fd(f), _ => true } }
proof fn lemma_g_shift(s: Seq<char>, k: int, e: int) requires 0 <= k <= e <= s.len() ensures g_name(s, k, e) == g_cname(s.subrange(k, e))
{
  let t = s.subrange(k, e);
  if g_name(s, k, e) {
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) == '/' || !is_seg_stop(t[i]) by { assert(s[k + i] == t[i]); }
    assert forall|i: int| 0 <= i < t.len() - 1 && (#[trigger] t[i]) == '/' implies t[i + 1] != '/' by { assert(s[k + i] == t[i]); }
  }
  if g_cname(t) {
    assert(t[0] == s[k]);
    assert forall|i: int| k <= i < e implies (#[trigger] s[i]) == '/' || !is_seg_stop(s[i]) by { assert(s[i] == t[i - k]); }
    assert forall|i: int| k <= i < e - 1 && (#[trigger] s[i]) == '/' implies s[i + 1] != '/' by { assert(s[i] == t[i - k]); }
  }
}
/// what is read is of the grammar
proof fn lemma_g_fd<'a>(c: Cow<'a, str>, k: int) requires 0 <= k <= cv(c).len() ensures match s_fd(c, k) { Some((d, e)) => g_fd(d), None => true }
{
  let s = cv(c); lemma_dims(s, k); let p = k + dims(s, k);
  if p < s.len() { lemma_cend(s, p + 1); match s_cend(s, p + 1) { Some(e) => { lemma_g_cend(s, p + 1, e); lemma_g_shift(s, p + 1, e); lemma_cow_sub(c, p + 1, e); }, None => {} } }
}
proof fn lemma_dims_are(s: Seq<char>, k: int, n: int) requires 0 <= k, 0 <= n, k + n <= s.len(), forall|i: int| k <= i < k + n ==> (#[trigger] s[i]) == '[', k + n < s.len() ==> s[k + n] != '[' ensures dims(s, k) == n decreases n
{ if n > 0 { assert(s[k] == '['); lemma_dims_are(s, k + 1, n - 1); } }
/// what is of the grammar is read, as the value it spells
proof fn lemma_read_fd<'a, 'b>(c: Cow<'a, str>, k: int, d: FieldDescriptor<'b>)
  requires 0 <= k, k + d_fd(d).len() <= cv(c).len(), g_fd(d), cv(c).subrange(k, k + d_fd(d).len()) == d_fd(d)
  ensures match s_fd(c, k) { Some((x, e)) => eq_fd(x, d) && e == k + d_fd(d).len(), None => false }
{
  let s = cv(c); let n = d.dimensions as int; let w = d_fd(d); let t = d_ft(d.field_type); let u = s.subrange(k, k + w.len());
  assert(w == brackets(n) + t);
  assert forall|i: int| k <= i < k + n implies (#[trigger] s[i]) == '[' by { assert(u[i - k] == s[i]); assert(w[i - k] == brackets(n)[i - k]); }
  assert(t.len() > 0 && t[0] != '[');
  let p = k + n;
  assert(s[p] == t[0]) by { assert(u[n] == s[p]); assert(w[n] == t[0]); }
  lemma_dims_are(s, k, n);
  match d.field_type {
    FieldType::Object(o) => {
      let nm = cv(o.0); let e = p + 1 + nm.len();
      assert(w.len() == n + 2 + nm.len());
      assert forall|i: int| 0 <= i < nm.len() implies s[p + 1 + i] == nm[i] by { assert(u[n + 1 + i] == s[p + 1 + i]); assert(w[n + 1 + i] == t[1 + i]); }
      assert(s.subrange(p + 1, e) =~= nm);
      assert(s[e] == ';') by { assert(u[n + 1 + nm.len()] == s[e]); assert(w[n + 1 + nm.len()] == t[1 + nm.len() as int]); }
      lemma_g_shift(s, p + 1, e); lemma_g_cend(s, p + 1, e); lemma_cow_sub(c, p + 1, e);
    },
    _ => { assert(w.len() == n + 1); },
  }
}
/// THEOREM C07/C18: a text is a field descriptor exactly when it is the text of a value of the grammar, and it is read as that value
proof fn theorem_field_descriptor<'a, 'b>(c: Cow<'a, str>, d: FieldDescriptor<'b>)
  ensures match s_fd_all(c) { Some(x) => g_fd(x) && d_fd(x) == cv(c), None => true },
    g_fd(d) && d_fd(d) == cv(c) ==> match s_fd_all(c) { Some(x) => eq_fd(x, d), None => false }
{
  lemma_g_fd(c, 0); lemma_rt_fd(c, 0); lemma_fd(c, 0);
  assert(cv(c).subrange(0, cv(c).len() as int) =~= cv(c));
  if g_fd(d) && d_fd(d) == cv(c) { lemma_read_fd(c, 0, d); }
}
proof fn lemma_g_params<'a>(c: Cow<'a, str>, k: int, acc: Seq<FieldDescriptor<'a>>) requires 0 <= k <= cv(c).len(), g_fds(acc)
  ensures match s_params(c, k, acc) { Some((ps, e)) => g_fds(ps), None => true }
  decreases cv(c).len() - k
{
  hide(s_fd);
  if k < cv(c).len() && cv(c)[k] == ')' { } else { lemma_fd(c, k); lemma_g_fd(c, k); match s_fd(c, k) { Some((d, e)) => { lemma_g_params(c, e, acc.push(d)); }, None => {} } }
}
proof fn lemma_d_fds_head(s: Seq<FieldDescriptor>) requires s.len() > 0 ensures d_fds(s) =~= d_fd(s[0]) + d_fds(s.skip(1)) decreases s.len()
{
  hide(d_fd);
  if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); }
  else { lemma_d_fds_head(s.drop_last()); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); assert(s.skip(1).last() == s.last()); }
}
/// s: what remains of the parameters
proof fn lemma_read_params<'a, 'b>(c: Cow<'a, str>, k: int, acc: Seq<FieldDescriptor<'a>>, s: Seq<FieldDescriptor<'b>>, done: Seq<FieldDescriptor<'b>>)
  requires 0 <= k, k + d_fds(s).len() < cv(c).len(), g_fds(s), cv(c).subrange(k, k + d_fds(s).len()) == d_fds(s), cv(c)[k + d_fds(s).len()] == ')', eq_fds(acc, done)
  ensures match s_params(c, k, acc) { Some((ps, e)) => eq_fds(ps, done + s) && e == k + d_fds(s).len(), None => false }
  decreases s.len()
{
  hide(d_fd); hide(eq_fd); hide(g_fd); hide(s_fd);
  if s.len() == 0 { assert(done + s =~= done); }
  else {
    let t = cv(c); let d = s[0]; let n = d_fd(d).len() as int; let r = s.skip(1); let w = d_fds(s); let u = t.subrange(k, k + w.len());
    lemma_d_fds_head(s);
    assert(w.len() == n + d_fds(r).len());
    assert(t.subrange(k, k + n) =~= d_fd(d)) by { assert forall|i: int| 0 <= i < n implies t[k + i] == d_fd(d)[i] by { assert(u[i] == t[k + i]); assert(w[i] == d_fd(d)[i]); } }
    assert(g_fd(d));
    lemma_read_fd(c, k, d);
    assert(t[k] != ')') by { reveal(s_fd); reveal(d_fd); lemma_dims(t, k); }
    assert(t.subrange(k + n, k + n + d_fds(r).len()) =~= d_fds(r)) by { assert forall|i: int| 0 <= i < d_fds(r).len() implies t[k + n + i] == d_fds(r)[i] by { assert(u[n + i] == t[k + n + i]); assert(w[n + i] == d_fds(r)[i]); } }
    match s_fd(c, k) { Some((x, e)) => {
      lemma_fd(c, k);
      assert(g_fds(r)) by { assert forall|i: int| 0 <= i < r.len() implies g_fd(#[trigger] r[i]) by { assert(r[i] == s[i + 1]); } }
      assert(eq_fds(acc.push(x), done.push(d)));
      lemma_read_params(c, e, acc.push(x), r, done.push(d));
      assert(done.push(d) + r =~= done + s);
    }, None => {} }
  }
}
proof fn lemma_read_ret<'a, 'b>(c: Cow<'a, str>, k: int, d: ReturnDescriptor<'b>)
  requires 0 <= k, g_rd(d), cv(c).len() == k + d_rd(d).len(), cv(c).skip(k) == d_rd(d)
  ensures match s_ret(c, k) { Some((x, e)) => eq_rd(x, d) && e == cv(c).len(), None => false }
{
  reveal_strlit("V");
  match d {
    ReturnDescriptor::Void => { assert(cv(c).skip(k) =~= "V"@); },
    ReturnDescriptor::Return(f) => {
      assert(cv(c).subrange(k, k + d_fd(f).len()) =~= d_fd(f)) by { assert(cv(c).skip(k) =~= cv(c).subrange(k, cv(c).len() as int)); }
      lemma_read_fd(c, k, f); lemma_fd(c, k);
      assert(cv(c).skip(k) != "V"@) by { lemma_dims(cv(c), k); if cv(c).skip(k) == "V"@ { assert(cv(c).skip(k)[0] == 'V'); assert(cv(c)[k] == 'V'); assert("V"@.len() == 1); } }
    },
  }
}
/// THEOREM C07/C18: the same for return descriptors ...
proof fn theorem_return_descriptor<'a, 'b>(c: Cow<'a, str>, d: ReturnDescriptor<'b>)
  ensures match s_rd_all(c) { Some(x) => g_rd(x) && d_rd(x) == cv(c), None => true },
    g_rd(d) && d_rd(d) == cv(c) ==> match s_rd_all(c) { Some(x) => eq_rd(x, d), None => false }
{
  lemma_g_fd(c, 0); lemma_rt_ret(c, 0);
  assert(cv(c).subrange(0, cv(c).len() as int) =~= cv(c)); assert(cv(c).skip(0) =~= cv(c));
  if g_rd(d) && d_rd(d) == cv(c) { lemma_read_ret(c, 0, d); }
}
spec fn g_md(d: MethodDescriptor) -> bool { g_fds(d.parameters@) && g_rd(d.return_type) }
spec fn eq_md(a: MethodDescriptor, b: MethodDescriptor) -> bool { eq_fds(a.parameters@, b.parameters@) && eq_rd(a.return_type, b.return_type) }
spec fn md_of<'a>(ps: Seq<FieldDescriptor<'a>>, r: ReturnDescriptor<'a>) -> MethodDescriptor<'a> { MethodDescriptor { parameters: vec_of(ps), return_type: r } }
/// ... and for method descriptors
proof fn theorem_method_descriptor<'a, 'b>(c: Cow<'a, str>, d: MethodDescriptor<'b>)
  requires cv(c).len() <= 0x0fff_ffff_ffff_ffff
  ensures match s_md_all(c) { Some(x) => g_md(x) && d_md(x) == cv(c), None => true },
    g_md(d) && d_md(d) == cv(c) ==> match s_md_all(c) { Some(x) => eq_md(x, d), None => false }
{
  hide(s_fd); hide(d_fd); hide(eq_fd); hide(g_fd); hide(s_params); hide(d_fds); hide(s_ret); hide(d_rd); hide(eq_rd); hide(g_rd);
  let s = cv(c); let em = Seq::<FieldDescriptor<'a>>::empty();
  if s.len() > 0 && s[0] == '(' {
    lemma_g_params(c, 1, em); lemma_rt_params(c, 1, em);
    match s_params(c, 1, em) { Some((ps, e)) => {
      lemma_md_text(c, 0, ps, e); lemma_rt_ret(c, e + 1); lemma_g_ret(c, e + 1);
      match s_ret(c, e + 1) { Some((r, e2)) => { assert(s.subrange(0, s.len() as int) =~= s); lemma_params_len(c, 1, em); }, None => {} }
    }, None => {} }
  }
  if g_md(d) && d_md(d) == s {
    let w = d_fds(d.parameters@); let q = d_rd(d.return_type);
    assert(s =~= seq!['('] + w + seq![')'] + q);
    assert(s[0] == '(' && s[1 + w.len() as int] == ')');
    assert(s.subrange(1, 1 + w.len() as int) =~= w);
    assert(s.skip(2 + w.len() as int) =~= q);
    let none = Seq::<FieldDescriptor<'b>>::empty();
    lemma_read_params(c, 1, em, d.parameters@, none);
    assert(none + d.parameters@ =~= d.parameters@);
    lemma_read_ret(c, 2 + w.len() as int, d.return_type);
    lemma_params_len(c, 1, em);
  }
}
proof fn lemma_g_ret<'a>(c: Cow<'a, str>, k: int) requires 0 <= k <= cv(c).len() ensures match s_ret(c, k) { Some((d, e)) => g_rd(d), None => true } { lemma_g_fd(c, k); }
proof fn lemma_params_len<'a>(c: Cow<'a, str>, k: int, acc: Seq<FieldDescriptor<'a>>) requires 0 <= k <= cv(c).len()
  ensures match s_params(c, k, acc) { Some((ps, e)) => ps.len() <= acc.len() + cv(c).len() - k, None => true }
  decreases cv(c).len() - k
{
  hide(s_fd);
  if k < cv(c).len() && cv(c)[k] == ')' { } else { lemma_fd(c, k); match s_fd(c, k) { Some((d, e)) => { lemma_params_len(c, e, acc.push(d)); }, None => {} } }
}
