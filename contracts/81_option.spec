// ---- C13: what the bytecode option changes. x is read with the option on, y with it off.
spec fn same_code(x: CodeData, y: CodeData, d: int) -> bool decreases MAX_ATTRIBUTE_DEPTH - d, 0int {
  &&& 0 <= d < MAX_ATTRIBUTE_DEPTH && x.bytecode is Some && y.bytecode is None
  &&& x.max_stack == y.max_stack && x.max_locals == y.max_locals && x.code == y.code && x.exception_table == y.exception_table
  &&& same_attrs(x.attributes@, y.attributes@, d + 1)
}
spec fn same_comp(x: RecordComponentEntry, y: RecordComponentEntry, d: int) -> bool decreases MAX_ATTRIBUTE_DEPTH - d, 0int {
  0 <= d < MAX_ATTRIBUTE_DEPTH && x.name == y.name && x.descriptor == y.descriptor && same_attrs(x.attributes@, y.attributes@, d + 1)
}
spec fn same_comps(x: Seq<RecordComponentEntry>, y: Seq<RecordComponentEntry>, d: int) -> bool decreases MAX_ATTRIBUTE_DEPTH - d, 1int {
  x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> same_comp(#[trigger] x[i], y[i], d)
}
spec fn same_data(x: AttributeData, y: AttributeData, d: int) -> bool decreases MAX_ATTRIBUTE_DEPTH - d, 2int {
  match (x, y) { (AttributeData::Code(v), AttributeData::Code(w)) => same_code(v, w, d), (AttributeData::Record(v), AttributeData::Record(w)) => same_comps(v@, w@, d), _ => x == y }
}
/// the same attributes, but for the decoded instructions
spec fn same_attrs(x: Seq<AttributeInfo>, y: Seq<AttributeInfo>, d: int) -> bool decreases MAX_ATTRIBUTE_DEPTH - d, 3int {
  x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).name == y[i].name && same_data(x[i].data, y[i].data, d)
}
spec fn same_field(x: FieldInfo, y: FieldInfo) -> bool { x.access_flags == y.access_flags && x.name == y.name && x.descriptor == y.descriptor && same_attrs(x.attributes@, y.attributes@, 0) }
spec fn same_fields(x: Seq<FieldInfo>, y: Seq<FieldInfo>) -> bool { x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> same_field(#[trigger] x[i], y[i]) }
spec fn same_method(x: MethodInfo, y: MethodInfo) -> bool { x.access_flags == y.access_flags && x.name == y.name && x.descriptor == y.descriptor && same_attrs(x.attributes@, y.attributes@, 0) }
spec fn same_methods(x: Seq<MethodInfo>, y: Seq<MethodInfo>) -> bool { x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> same_method(#[trigger] x[i], y[i]) }
spec fn same_class(x: SClass, y: SClass) -> bool {
  x.minor == y.minor && x.major == y.major && x.pool == y.pool && x.flags == y.flags && x.this_class == y.this_class && x.super_class == y.super_class && x.interfaces == y.interfaces
  && same_fields(x.fields@, y.fields@) && same_methods(x.methods@, y.methods@) && same_attrs(x.attributes@, y.attributes@, 0)
}
proof fn opt_codedata(b: Seq<u8>, ix: int, p: Seq<FEntry>, d: int)
  ensures match s_codedata(b, ix, p, true, d) { Some((x, j)) => match s_codedata(b, ix, p, false, d) { Some((y, k)) => j == k && same_code(x, y, d), None => false }, None => true }
  decreases MAX_ATTRIBUTE_DEPTH - d, 0int, 0int
{
  hide(s_code); hide(be2); hide(be4);
  if 0 <= d < MAX_ATTRIBUTE_DEPTH { match s_u2(b, ix) { Some((_, i1)) => match s_u2(b, i1) { Some((_, i2)) => match s_u4(b, i2) { Some((len, i3)) => if i3 + len <= b.len() {
    match s_u2(b, i3 + len) { Some((n, i4)) => match s_exc_entries(b, p, i4, n as int, Seq::empty()) { Some((_, i5)) => { opt_attrs(b, i5, p, d + 1); }, None => {} }, None => {} }
  }, None => {} }, None => {} }, None => {} } }
}
proof fn opt_component(b: Seq<u8>, ix: int, p: Seq<FEntry>, d: int)
  ensures match s_component(b, ix, p, true, d) { Some((x, j)) => match s_component(b, ix, p, false, d) { Some((y, k)) => j == k && same_comp(x, y, d), None => false }, None => true }
  decreases MAX_ATTRIBUTE_DEPTH - d, 0int, 0int
{ hide(s_cp_utf8); hide(s_cp_fd);
  if 0 <= d < MAX_ATTRIBUTE_DEPTH { match s_cp_utf8(b, ix, p) { Some((_, i1)) => match s_cp_fd(b, i1, p) { Some((_, i2)) => { opt_attrs(b, i2, p, d + 1); }, None => {} }, None => {} } } }
proof fn opt_components<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, d: int, ix: int, n: int, ax: Seq<RecordComponentEntry<'a>>, ay: Seq<RecordComponentEntry<'a>>)
  requires same_comps(ax, ay, d)
  ensures match s_components(b, p, true, d, ix, n, ax) { Some((x, j)) => match s_components(b, p, false, d, ix, n, ay) { Some((y, k)) => j == k && same_comps(x, y, d), None => false }, None => true }
  decreases MAX_ATTRIBUTE_DEPTH - d, 1int, n
{  
  if n > 0 { opt_component(b, ix, p, d); match (s_component(b, ix, p, true, d), s_component(b, ix, p, false, d)) { (Some((x, i)), Some((y, _))) => {
    assert(same_comps(ax.push(x), ay.push(y), d));
    opt_components(b, p, d, i, n - 1, ax.push(x), ay.push(y)); }, _ => {} } } }
proof fn opt_record(b: Seq<u8>, ix: int, p: Seq<FEntry>, d: int)
  ensures match s_record(b, ix, p, true, d) { Some((x, j)) => match s_record(b, ix, p, false, d) { Some((y, k)) => j == k && same_comps(x@, y@, d) && x@.len() <= 65535 && y@.len() <= 65535, None => false }, None => true }
  decreases MAX_ATTRIBUTE_DEPTH - d, 2int, 0int
{  match s_u2(b, ix) { Some((n, i)) => { opt_components(b, p, d, i, n as int, Seq::empty(), Seq::empty());
    len_components(b, p, true, d, i, n as int, Seq::empty()); len_components(b, p, false, d, i, n as int, Seq::empty()); }, None => {} } }
proof fn len_components<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, d: int, ix: int, n: int, acc: Seq<RecordComponentEntry<'a>>)
  requires 0 <= n
  ensures match s_components(b, p, pb, d, ix, n, acc) { Some((v, _)) => v.len() == acc.len() + n, None => true } decreases n
{  if n > 0 { match s_component(b, ix, p, pb, d) { Some((x, i)) => { len_components(b, p, pb, d, i, n - 1, acc.push(x)); }, None => {} } } }
proof fn len_attrs<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, d: int, ix: int, n: int, acc: Seq<AttributeInfo<'a>>)
  requires 0 <= n
  ensures match s_attrs_n(b, p, pb, d, ix, n, acc) { Some((v, _)) => v.len() == acc.len() + n, None => true } decreases n
{  if n > 0 { match s_attr(b, ix, p, pb, d) { Some((x, i)) => { len_attrs(b, p, pb, d, i, n - 1, acc.push(x)); }, None => {} } } }
proof fn opt_data(name: Seq<char>, b: Seq<u8>, ix: int, len: int, p: Seq<FEntry>, d: int)
  ensures match s_data(name, b, ix, len, p, true, d) { Some((x, j)) => match s_data(name, b, ix, len, p, false, d) { Some((y, k)) => j == k && same_data(x, y, d), None => false }, None => true }
  decreases MAX_ATTRIBUTE_DEPTH - d, 3int, 0int
{
  hide(s_cp_literal); hide(s_stackmap); hide(s_class_list); hide(s_innerclasses); hide(s_enclosing); hide(s_cp_utf8); hide(s_linenumbers); hide(s_localvariables); hide(s_localvariabletypes); hide(s_annotations); hide(s_parameter_annotations); hide(s_type_annotations); hide(s_bootstrapmethods); hide(s_methodparameters); hide(s_module_data); hide(s_package_list); hide(s_cp_class); hide(s_ev); hide(s_codedata); hide(s_record); hide(s_data); hide(attr_kind); 
  
  let k = attr_kind(name);
  lemma_data(name, b, ix, len, p, true, d); lemma_data(name, b, ix, len, p, false, d);
  if k == 2 { opt_codedata(b, ix, p, d); } else if k == 30 { opt_record(b, ix, p, d); } else { opt_data_others(name, b, ix, len, p, d); }
}
proof fn opt_data_others(name: Seq<char>, b: Seq<u8>, ix: int, len: int, p: Seq<FEntry>, d: int)
  requires attr_kind(name) != 2, attr_kind(name) != 30
  ensures s_data_open(name, b, ix, len, p, true, d) == s_data_open(name, b, ix, len, p, false, d),
    match s_data_open(name, b, ix, len, p, true, d) { Some((x, _)) => !(x is Code) && !(x is Record), None => true }
{
  hide(s_cp_literal); hide(s_stackmap); hide(s_class_list); hide(s_innerclasses); hide(s_cp_utf8); hide(s_linenumbers); hide(s_localvariables); hide(s_localvariabletypes); hide(s_annotations); hide(s_parameter_annotations); hide(s_type_annotations); hide(s_bootstrapmethods); hide(s_methodparameters); hide(s_module_data); hide(s_package_list); hide(s_cp_class); hide(s_ev); hide(s_codedata); hide(s_record); hide(attr_kind);
}
proof fn opt_attr(b: Seq<u8>, ix: int, p: Seq<FEntry>, d: int)
  ensures match s_attr(b, ix, p, true, d) { Some((x, j)) => match s_attr(b, ix, p, false, d) { Some((y, k)) => j == k && x.name == y.name && same_data(x.data, y.data, d), None => false }, None => true }
  decreases MAX_ATTRIBUTE_DEPTH - d, 4int, 0int
{   hide(s_cp_utf8); hide(be4); match s_cp_utf8(b, ix, p) { Some((name, i)) => match s_u4(b, i) { Some((len, i2)) => if i2 + len <= b.len() { opt_data(cv(name), b, i2, len as int, p, d); }, None => {} }, None => {} } }
proof fn opt_attrs_n<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, d: int, ix: int, n: int, ax: Seq<AttributeInfo<'a>>, ay: Seq<AttributeInfo<'a>>)
  requires same_attrs(ax, ay, d)
  ensures match s_attrs_n(b, p, true, d, ix, n, ax) { Some((x, j)) => match s_attrs_n(b, p, false, d, ix, n, ay) { Some((y, k)) => j == k && same_attrs(x, y, d), None => false }, None => true }
  decreases MAX_ATTRIBUTE_DEPTH - d, 5int, n
{  
  if n > 0 { opt_attr(b, ix, p, d); match (s_attr(b, ix, p, true, d), s_attr(b, ix, p, false, d)) { (Some((x, i)), Some((y, _))) => {
    assert(same_attrs(ax.push(x), ay.push(y), d));
    opt_attrs_n(b, p, d, i, n - 1, ax.push(x), ay.push(y)); }, _ => {} } } }
proof fn opt_attrs(b: Seq<u8>, ix: int, p: Seq<FEntry>, d: int)
  ensures match s_attrs(b, ix, p, true, d) { Some((x, j)) => match s_attrs(b, ix, p, false, d) { Some((y, k)) => j == k && same_attrs(x@, y@, d), None => false }, None => true }
  decreases MAX_ATTRIBUTE_DEPTH - d, 6int, 0int
{  if 0 <= d < MAX_ATTRIBUTE_DEPTH { match s_u2(b, ix) { Some((n, i)) => { opt_attrs_n(b, p, d, i, n as int, Seq::empty(), Seq::empty());
    len_attrs(b, p, true, d, i, n as int, Seq::empty()); len_attrs(b, p, false, d, i, n as int, Seq::empty()); }, None => {} } } }
proof fn opt_field_keys(x: Seq<FieldInfo>, y: Seq<FieldInfo>) requires same_fields(x, y) ensures field_keys(x) == field_keys(y) decreases x.len()
{ if x.len() > 0 { assert(same_field(x[x.len() - 1], y[y.len() - 1]));
  assert forall|i: int| 0 <= i < x.drop_last().len() implies same_field(#[trigger] x.drop_last()[i], y.drop_last()[i]) by { assert(same_field(x[i], y[i])); }
  opt_field_keys(x.drop_last(), y.drop_last()); } }
proof fn opt_method_keys(x: Seq<MethodInfo>, y: Seq<MethodInfo>) requires same_methods(x, y) ensures method_keys(x) == method_keys(y) decreases x.len()
{ if x.len() > 0 { assert(same_method(x[x.len() - 1], y[y.len() - 1]));
  assert forall|i: int| 0 <= i < x.drop_last().len() implies same_method(#[trigger] x.drop_last()[i], y.drop_last()[i]) by { assert(same_method(x[i], y[i])); }
  opt_method_keys(x.drop_last(), y.drop_last()); } }
proof fn opt_fields_n<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, ax: Seq<FieldInfo<'a>>, ay: Seq<FieldInfo<'a>>)
  requires same_fields(ax, ay), 0 <= n
  ensures match s_fields_n(b, p, true, ix, n, ax) { Some((x, j)) => match s_fields_n(b, p, false, ix, n, ay) { Some((y, k)) => j == k && same_fields(x, y) && x.len() == ax.len() + n && y.len() == ay.len() + n, None => false }, None => true }
  decreases n
{
  hide(s_cp_utf8); hide(s_cp_fd); hide(s_attrs); hide(same_attrs); hide(field_keys); hide(fd_key); hide(be2);
  if n > 0 {
    opt_field_keys(ax, ay);
    match s_u2(b, ix) { Some((_, i1)) => match s_cp_utf8(b, i1, p) { Some((_, i2)) => match s_cp_fd(b, i2, p) { Some((_, i3)) => { opt_attrs(b, i3, p, 0); }, None => {} }, None => {} }, None => {} }
    match (s_field(b, ix, p, true, ax), s_field(b, ix, p, false, ay)) { (Some((x, i)), Some((y, _))) => {
      assert(same_fields(ax.push(x), ay.push(y)));
      opt_fields_n(b, p, i, n - 1, ax.push(x), ay.push(y)); }, _ => {} }
  }
}
proof fn opt_methods_n<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, iface: bool, mv: u16, ix: int, n: int, ax: Seq<MethodInfo<'a>>, ay: Seq<MethodInfo<'a>>)
  requires same_methods(ax, ay), 0 <= n
  ensures match s_methods_n(b, p, true, iface, mv, ix, n, ax) { Some((x, j)) => match s_methods_n(b, p, false, iface, mv, ix, n, ay) { Some((y, k)) => j == k && same_methods(x, y) && x.len() == ax.len() + n && y.len() == ay.len() + n, None => false }, None => true }
  decreases n
{
  hide(s_cp_utf8); hide(s_cp_md); hide(s_attrs); hide(same_attrs); hide(method_keys); hide(md_key); hide(be2); hide(s_method_name);
  if n > 0 {
    opt_method_keys(ax, ay);
    match s_u2(b, ix) { Some((_, i1)) => match s_cp_utf8(b, i1, p) { Some((_, i2)) => match s_cp_md(b, i2, p) { Some((_, i3)) => { opt_attrs(b, i3, p, 0); }, None => {} }, None => {} }, None => {} }
    match (s_method(b, ix, p, true, iface, mv, ax), s_method(b, ix, p, false, iface, mv, ay)) { (Some((x, i)), Some((y, _))) => {
      assert(same_methods(ax.push(x), ay.push(y)));
      opt_methods_n(b, p, iface, mv, i, n - 1, ax.push(x), ay.push(y)); }, _ => {} }
  }
}
proof fn opt_bootstrap(p: Seq<FEntry>, x: Seq<AttributeInfo>, y: Seq<AttributeInfo>) requires same_attrs(x, y, 0) ensures bootstrap_ok(p, x) == bootstrap_ok(p, y)
{
   
  opt_bsm_count(x, y);
  assert forall|i: int| 0 <= i < p.len() implies bsm_ok(x, #[trigger] p[i]) == bsm_ok(y, p[i]) by {
    match f_dynamic(p[i]) { Some(v) => {
      assert forall|j: int| 0 <= j < x.len() implies bsm_above(#[trigger] x[j], v) == bsm_above(y[j], v) by { assert(same_data(x[j].data, y[j].data, 0)); }
      if bsm_all_above(y, v) { assert forall|j: int| 0 <= j < x.len() implies bsm_above(#[trigger] x[j], v) by { assert(bsm_above(y[j], v)); } }
      if bsm_all_above(x, v) { assert forall|j: int| 0 <= j < y.len() implies bsm_above(#[trigger] y[j], v) by { assert(bsm_above(x[j], v)); } }
    }, None => {} }
  }
}
proof fn opt_bsm_count(x: Seq<AttributeInfo>, y: Seq<AttributeInfo>) requires same_attrs(x, y, 0) ensures bsm_count(x) == bsm_count(y) decreases x.len()
{  
  if x.len() > 0 { assert(same_data(x[x.len() - 1].data, y[y.len() - 1].data, 0));
    assert forall|i: int| 0 <= i < x.drop_last().len() implies (#[trigger] x.drop_last()[i]).name == y.drop_last()[i].name && same_data(x.drop_last()[i].data, y.drop_last()[i].data, 0) by { assert(x[i].name == y[i].name && same_data(x[i].data, y[i].data, 0)); }
    opt_bsm_count(x.drop_last(), y.drop_last()); } }
/// THEOREM C13: what is accepted with the bytecode option on is accepted with it off, and reads the same but for the decoded instructions
proof fn theorem_option(b: Seq<u8>)
  ensures match s_class(b, true) { Some(x) => match s_class(b, false) { Some(y) => same_class(x, y), None => false }, None => true }
{
  hide(s_attrs); hide(s_methods_n); hide(s_fields_n); hide(s_interfaces); hide(s_pool); hide(s_cp_cname); hide(s_cp_cname_opt); hide(be2); hide(be4); hide(bootstrap_ok); hide(same_attrs); hide(same_fields); hide(same_methods);
  match s_u4(b, 0) { Some((_, i0)) => match s_u2(b, i0) { Some((_, i1)) => match s_u2(b, i1) { Some((mv, i2)) => match s_pool(b, i2, mv) { Some((p, i3)) => match s_u2(b, i3) { Some((f, i4)) =>
    match s_cp_cname(b, i4, p) { Some((_, i5)) => match s_cp_cname_opt(b, i5, p) { Some((_, i6)) => match s_interfaces(b, i6, p) { Some((_, i7)) => match s_u2(b, i7) { Some((nf, j7)) => {
      assert(same_fields(Seq::empty(), Seq::empty())) by { reveal(same_fields); }
      assert(same_methods(Seq::empty(), Seq::empty())) by { reveal(same_methods); }
      opt_fields_n(b, p, j7, nf as int, Seq::empty(), Seq::empty());
      match s_fields(b, i7, p, true) { Some((_, i8)) => match s_u2(b, i8) { Some((nm, j8)) => {
        opt_methods_n(b, p, f & 0x200 == 0x200, mv, j8, nm as int, Seq::empty(), Seq::empty());
        match s_methods(b, i8, p, true, f & 0x200 == 0x200, mv) { Some((_, i9)) => { opt_attrs(b, i9, p, 0); match (s_attrs(b, i9, p, true, 0), s_attrs(b, i9, p, false, 0)) { (Some((x, _)), Some((y, _))) => { opt_bootstrap(p, x@, y@); }, _ => {} } }, None => {} }
      }, None => {} }, None => {} }
    }, None => {} }, None => {} }, None => {} }, None => {} }, None => {} }, None => {} }, None => {} }, None => {} }, None => {} }
}
