// ---- C03: what a reader finds depends only on the bytes it consumes. Hence a proper prefix or an
// extension of an accepted class file is not accepted (theorem_exact).
spec fn pre(b: Seq<u8>, c: Seq<u8>) -> bool { b.len() <= c.len() && forall|i: int| 0 <= i < b.len() ==> b[i] == #[trigger] c[i] }
spec fn stab<T>(b: Seq<u8>, ix: int, x: Option<(T, int)>, y: Option<(T, int)>) -> bool { match x { Some((_, j)) => ix <= j <= b.len() && y == x, None => true } }
broadcast proof fn stab_s_u1(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_u1(b, ix), s_u1(c, ix)) { }
broadcast proof fn stab_s_u2(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_u2(b, ix), s_u2(c, ix)) { }
broadcast proof fn stab_s_u4(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_u4(b, ix), s_u4(c, ix)) { }
broadcast proof fn stab_s_u8(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_u8(b, ix), s_u8(c, ix)) { }
broadcast proof fn stab_s_e_integer<'a>(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_e_integer(b, ix), s_e_integer(c, ix)) { broadcast use stab_s_u4; }
broadcast proof fn stab_s_e_float<'a>(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_e_float(b, ix), s_e_float(c, ix)) { broadcast use stab_s_u4; }
broadcast proof fn stab_s_e_long<'a>(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_e_long(b, ix), s_e_long(c, ix)) { broadcast use stab_s_u8; }
broadcast proof fn stab_s_e_double<'a>(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_e_double(b, ix), s_e_double(c, ix)) { broadcast use stab_s_u8; }
broadcast proof fn stab_s_e_one<'a>(tag: int, b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_e_one(tag, b, ix), s_e_one(tag, c, ix)) { broadcast use stab_s_u2; }
broadcast proof fn stab_s_e_two<'a>(tag: int, b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_e_two(tag, b, ix), s_e_two(tag, c, ix)) { broadcast use stab_s_u2; }
broadcast proof fn stab_s_e_mh<'a>(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_e_mh(b, ix), s_e_mh(c, ix)) { broadcast use {stab_s_u1, stab_s_u2}; }
broadcast proof fn stab_s_e_utf8<'a>(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_e_utf8(b, ix), s_e_utf8(c, ix))
{ broadcast use stab_s_u2; match s_u2(b, ix) { Some((n, i)) => if i + n as int <= b.len() { assert(b.subrange(i, i + n as int) =~= c.subrange(i, i + n as int)); }, None => {} } }
broadcast proof fn stab_s_entry<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, mv: u16) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_entry(b, ix, mv), s_entry(c, ix, mv)) { broadcast use {stab_s_e_double, stab_s_e_float, stab_s_e_integer, stab_s_e_long, stab_s_e_mh, stab_s_e_one, stab_s_e_two, stab_s_e_utf8, stab_s_e_utf8, stab_s_u1}; }
broadcast proof fn stab_s_cp<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp(b, ix, p), s_cp(c, ix, p)) { broadcast use stab_s_u2; }
broadcast proof fn stab_s_cp_utf8<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_utf8(b, ix, p), s_cp_utf8(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_utf8_opt<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_utf8_opt(b, ix, p), s_cp_utf8_opt(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_class<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_class(b, ix, p), s_cp_class(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_class_opt<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_class_opt(b, ix, p), s_cp_class_opt(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_module<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_module(b, ix, p), s_cp_module(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_package<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_package(b, ix, p), s_cp_package(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_nat_opt<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_nat_opt(b, ix, p), s_cp_nat_opt(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_literal<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_literal(b, ix, p), s_cp_literal(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_integer<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_integer(b, ix, p), s_cp_integer(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_float<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_float(b, ix, p), s_cp_float(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_long<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_long(b, ix, p), s_cp_long(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_double<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_double(b, ix, p), s_cp_double(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_member<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, field: bool, method: bool, imethod: bool) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_member(b, ix, p, field, method, imethod), s_cp_member(c, ix, p, field, method, imethod)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_indy<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_indy(b, ix, p), s_cp_indy(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_mh<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_mh(b, ix, p), s_cp_mh(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_bsarg<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_bsarg(b, ix, p), s_cp_bsarg(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_cp_oat<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_oat(b, ix, p), s_cp_oat(c, ix, p)) { broadcast use stab_s_cp; }
broadcast proof fn stab_s_exc_entry<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_exc_entry(b, ix, p), s_exc_entry(c, ix, p)) { broadcast use {stab_s_cp_class_opt, stab_s_u2}; }
broadcast proof fn stab_s_exc_entries<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<ExceptionTableEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_exc_entries(b, p, ix, n, acc), s_exc_entries(c, p, ix, n, acc)) decreases n { broadcast use stab_s_exc_entry;  if n > 0 { match s_exc_entry(b, ix, p) { Some((x_, ix2_)) => { stab_s_exc_entries(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_classes<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<Cow<'a, str>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_classes(b, p, ix, n, acc), s_classes(c, p, ix, n, acc)) decreases n { broadcast use stab_s_cp_class;  if n > 0 { match s_cp_class(b, ix, p) { Some((x_, ix2_)) => { stab_s_classes(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_packages<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<Cow<'a, str>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_packages(b, p, ix, n, acc), s_packages(c, p, ix, n, acc)) decreases n { broadcast use stab_s_cp_package;  if n > 0 { match s_cp_package(b, ix, p) { Some((x_, ix2_)) => { stab_s_packages(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_modules<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<Cow<'a, str>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_modules(b, p, ix, n, acc), s_modules(c, p, ix, n, acc)) decreases n { broadcast use stab_s_cp_module;  if n > 0 { match s_cp_module(b, ix, p) { Some((x_, ix2_)) => { stab_s_modules(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_class_list<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_class_list(b, ix, p), s_class_list(c, ix, p)) { broadcast use {stab_s_classes, stab_s_u2}; }
broadcast proof fn stab_s_package_list<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_package_list(b, ix, p), s_package_list(c, ix, p)) { broadcast use {stab_s_packages, stab_s_u2}; }
broadcast proof fn stab_s_module_list<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_module_list(b, ix, p), s_module_list(c, ix, p)) { broadcast use {stab_s_modules, stab_s_u2}; }
broadcast proof fn stab_s_vt<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_vt(b, ix, p), s_vt(c, ix, p)) { broadcast use {stab_s_cp_class, stab_s_u1, stab_s_u2}; }
broadcast proof fn stab_s_vts<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<VerificationType<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_vts(b, p, ix, n, acc), s_vts(c, p, ix, n, acc)) decreases n { broadcast use stab_s_vt;  if n > 0 { match s_vt(b, ix, p) { Some((x_, ix2_)) => { stab_s_vts(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_frame_full<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_frame_full(b, ix, p), s_frame_full(c, ix, p)) { broadcast use {stab_s_u2, stab_s_vts}; }
broadcast proof fn stab_s_frame_append<'a>(n: int, b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_frame_append(n, b, ix, p), s_frame_append(n, c, ix, p)) { broadcast use {stab_s_u2, stab_s_vts}; }
broadcast proof fn stab_s_frame_item<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_frame_item(b, ix, p), s_frame_item(c, ix, p)) { broadcast use {stab_s_u2, stab_s_vt}; }
broadcast proof fn stab_s_frame<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_frame(b, ix, p), s_frame(c, ix, p)) { broadcast use {stab_s_frame_append, stab_s_frame_full, stab_s_frame_item, stab_s_u1, stab_s_u2, stab_s_vt}; }
broadcast proof fn stab_s_frames<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<StackMapEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_frames(b, p, ix, n, acc), s_frames(c, p, ix, n, acc)) decreases n { broadcast use stab_s_frame;  if n > 0 { match s_frame(b, ix, p) { Some((x_, ix2_)) => { stab_s_frames(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_stackmap<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_stackmap(b, ix, p), s_stackmap(c, ix, p)) { broadcast use {stab_s_frames, stab_s_u2}; }
broadcast proof fn stab_s_inner<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_inner(b, ix, p), s_inner(c, ix, p)) { broadcast use {stab_s_cp_class, stab_s_cp_class_opt, stab_s_cp_utf8_opt, stab_s_u2}; }
broadcast proof fn stab_s_inners<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<InnerClassEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_inners(b, p, ix, n, acc), s_inners(c, p, ix, n, acc)) decreases n { broadcast use stab_s_inner;  if n > 0 { match s_inner(b, ix, p) { Some((x_, ix2_)) => { stab_s_inners(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_innerclasses<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_innerclasses(b, ix, p), s_innerclasses(c, ix, p)) { broadcast use {stab_s_inners, stab_s_u2}; }
broadcast proof fn stab_s_line(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_line(b, ix), s_line(c, ix)) { broadcast use stab_s_u2; }
broadcast proof fn stab_s_lines(b: Seq<u8>, c: Seq<u8>, ix: int, n: int, acc: Seq<LineNumberEntry>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_lines(b, ix, n, acc), s_lines(c, ix, n, acc)) decreases n { broadcast use stab_s_line;  if n > 0 { match s_line(b, ix) { Some((x_, ix2_)) => { stab_s_lines(b, c, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_linenumbers(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_linenumbers(b, ix), s_linenumbers(c, ix)) { broadcast use {stab_s_lines, stab_s_u2}; }
broadcast proof fn stab_s_cp_fd<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_fd(b, ix, p), s_cp_fd(c, ix, p)) { broadcast use stab_s_cp_utf8; }
broadcast proof fn stab_s_localvar<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_localvar(b, ix, p), s_localvar(c, ix, p)) { broadcast use {stab_s_cp_fd, stab_s_cp_utf8, stab_s_u2}; }
broadcast proof fn stab_s_localvars<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<LocalVariableEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_localvars(b, p, ix, n, acc), s_localvars(c, p, ix, n, acc)) decreases n { broadcast use stab_s_localvar;  if n > 0 { match s_localvar(b, ix, p) { Some((x_, ix2_)) => { stab_s_localvars(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_localvariables<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_localvariables(b, ix, p), s_localvariables(c, ix, p)) { broadcast use {stab_s_localvars, stab_s_u2}; }
broadcast proof fn stab_s_localvartype<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_localvartype(b, ix, p), s_localvartype(c, ix, p)) { broadcast use {stab_s_cp_utf8, stab_s_u2}; }
broadcast proof fn stab_s_localvartypes<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<LocalVariableTypeEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_localvartypes(b, p, ix, n, acc), s_localvartypes(c, p, ix, n, acc)) decreases n { broadcast use stab_s_localvartype;  if n > 0 { match s_localvartype(b, ix, p) { Some((x_, ix2_)) => { stab_s_localvartypes(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_localvariabletypes<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_localvariabletypes(b, ix, p), s_localvariabletypes(c, ix, p)) { broadcast use {stab_s_localvartypes, stab_s_u2}; }
broadcast proof fn stab_s_ev_enum<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_ev_enum(b, ix, p), s_ev_enum(c, ix, p)) { broadcast use {stab_s_cp_fd, stab_s_cp_utf8}; }
broadcast proof fn stab_s_ev_class<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_ev_class(b, ix, p), s_ev_class(c, ix, p)) { broadcast use stab_s_cp_utf8; }
proof fn stab_s_ev<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, d: int) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_ev(b, ix, p, d), s_ev(c, ix, p, d)) decreases MAX_ANNOTATION_DEPTH - d, 0int, 0int
{ broadcast use {stab_s_u1, stab_s_u2, stab_s_cp_integer, stab_s_cp_double, stab_s_cp_float, stab_s_cp_long, stab_s_cp_utf8, stab_s_ev_enum, stab_s_ev_class};
  if 0 <= d < MAX_ANNOTATION_DEPTH { match s_u1(b, ix) { Some((t, i)) => {
    if t == 64 { stab_s_ann(b, c, i, p, d + 1); }
    if t == 91 { match s_u2(b, i) { Some((n, i2)) => { stab_s_evs(b, c, p, d + 1, i2, n as int, Seq::empty()); }, None => {} } }
  }, None => {} } } }
proof fn stab_s_evs<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, d: int, ix: int, n: int, acc: Seq<AnnotationElementValue<'a>>) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_evs(b, p, d, ix, n, acc), s_evs(c, p, d, ix, n, acc)) decreases MAX_ANNOTATION_DEPTH - d, 1int, n
{ if n > 0 { stab_s_ev(b, c, ix, p, d); match s_ev(b, ix, p, d) { Some((x, i)) => { stab_s_evs(b, c, p, d, i, n - 1, acc.push(x)); }, None => {} } } }
proof fn stab_s_elem<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, d: int) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_elem(b, ix, p, d), s_elem(c, ix, p, d)) decreases MAX_ANNOTATION_DEPTH - d, 1int, 0int
{ broadcast use stab_s_cp_utf8; match s_cp_utf8(b, ix, p) { Some((x, i)) => { stab_s_ev(b, c, i, p, d); }, None => {} } }
proof fn stab_s_elems<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, d: int, ix: int, n: int, acc: Seq<AnnotationElement<'a>>) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_elems(b, p, d, ix, n, acc), s_elems(c, p, d, ix, n, acc)) decreases MAX_ANNOTATION_DEPTH - d, 2int, n
{ if n > 0 { stab_s_elem(b, c, ix, p, d); match s_elem(b, ix, p, d) { Some((x, i)) => { stab_s_elems(b, c, p, d, i, n - 1, acc.push(x)); }, None => {} } } }
proof fn stab_s_ann<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, d: int) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_ann(b, ix, p, d), s_ann(c, ix, p, d)) decreases MAX_ANNOTATION_DEPTH - d, 3int, 0int
{ broadcast use {stab_s_cp_fd, stab_s_u2}; match s_cp_fd(b, ix, p) { Some((x, i)) => match s_u2(b, i) { Some((n, i2)) => { stab_s_elems(b, c, p, d, i2, n as int, Seq::empty()); }, None => {} }, None => {} } }
broadcast proof fn stab_ann<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, d: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_ann(b, ix, p, d), s_ann(c, ix, p, d)) { stab_s_ann(b, c, ix, p, d); }
broadcast proof fn stab_s_anns<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<Annotation<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_anns(b, p, ix, n, acc), s_anns(c, p, ix, n, acc)) decreases n { broadcast use stab_ann;  if n > 0 { match s_ann(b, ix, p, 0) { Some((x_, ix2_)) => { stab_s_anns(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_annotations<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_annotations(b, ix, p), s_annotations(c, ix, p)) { broadcast use {stab_s_anns, stab_s_u2}; }
broadcast proof fn stab_s_param_ann<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_param_ann(b, ix, p), s_param_ann(c, ix, p)) { broadcast use stab_s_annotations; }
broadcast proof fn stab_s_param_anns<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<ParameterAnnotation<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_param_anns(b, p, ix, n, acc), s_param_anns(c, p, ix, n, acc)) decreases n { broadcast use stab_s_param_ann;  if n > 0 { match s_param_ann(b, ix, p) { Some((x_, ix2_)) => { stab_s_param_anns(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_parameter_annotations<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_parameter_annotations(b, ix, p), s_parameter_annotations(c, ix, p)) { broadcast use {stab_s_param_anns, stab_s_u1}; }
broadcast proof fn stab_s_lv_target(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_lv_target(b, ix), s_lv_target(c, ix)) { broadcast use stab_s_u2; }
broadcast proof fn stab_s_lv_targets(b: Seq<u8>, c: Seq<u8>, ix: int, n: int, acc: Seq<TypeAnnotationLocalVarTargetEntry>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_lv_targets(b, ix, n, acc), s_lv_targets(c, ix, n, acc)) decreases n { broadcast use stab_s_lv_target;  if n > 0 { match s_lv_target(b, ix) { Some((x_, ix2_)) => { stab_s_lv_targets(b, c, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_tgt_bound(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_tgt_bound(b, ix), s_tgt_bound(c, ix)) { broadcast use stab_s_u1; }
broadcast proof fn stab_s_tgt_lv(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_tgt_lv(b, ix), s_tgt_lv(c, ix)) { broadcast use {stab_s_lv_targets, stab_s_u2}; }
broadcast proof fn stab_s_tgt_arg(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_tgt_arg(b, ix), s_tgt_arg(c, ix)) { broadcast use {stab_s_u1, stab_s_u2}; }
broadcast proof fn stab_s_target(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_target(b, ix), s_target(c, ix)) { broadcast use {stab_s_tgt_arg, stab_s_tgt_bound, stab_s_tgt_lv, stab_s_u1, stab_s_u2}; }
broadcast proof fn stab_s_path(b: Seq<u8>, c: Seq<u8>, ix: int) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_path(b, ix), s_path(c, ix)) { broadcast use stab_s_u1; }
broadcast proof fn stab_s_paths(b: Seq<u8>, c: Seq<u8>, ix: int, n: int, acc: Seq<TypeAnnotationTargetPathEntry>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_paths(b, ix, n, acc), s_paths(c, ix, n, acc)) decreases n { broadcast use stab_s_path;  if n > 0 { match s_path(b, ix) { Some((x_, ix2_)) => { stab_s_paths(b, c, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_type_ann<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_type_ann(b, ix, p), s_type_ann(c, ix, p)) { broadcast use {stab_ann, stab_s_paths, stab_s_target, stab_s_u1}; }
broadcast proof fn stab_s_type_anns<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<TypeAnnotation<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_type_anns(b, p, ix, n, acc), s_type_anns(c, p, ix, n, acc)) decreases n { broadcast use stab_s_type_ann;  if n > 0 { match s_type_ann(b, ix, p) { Some((x_, ix2_)) => { stab_s_type_anns(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_type_annotations<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_type_annotations(b, ix, p), s_type_annotations(c, ix, p)) { broadcast use {stab_s_type_anns, stab_s_u2}; }
broadcast proof fn stab_s_bsargs<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<BootstrapArgument<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_bsargs(b, p, ix, n, acc), s_bsargs(c, p, ix, n, acc)) decreases n { broadcast use stab_s_cp_bsarg;  if n > 0 { match s_cp_bsarg(b, ix, p) { Some((x_, ix2_)) => { stab_s_bsargs(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_bsm<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_bsm(b, ix, p), s_bsm(c, ix, p)) { broadcast use {stab_s_bsargs, stab_s_cp_mh, stab_s_u2}; }
broadcast proof fn stab_s_bsms<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<BootstrapMethodEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_bsms(b, p, ix, n, acc), s_bsms(c, p, ix, n, acc)) decreases n { broadcast use stab_s_bsm;  if n > 0 { match s_bsm(b, ix, p) { Some((x_, ix2_)) => { stab_s_bsms(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_bootstrapmethods<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_bootstrapmethods(b, ix, p), s_bootstrapmethods(c, ix, p)) { broadcast use {stab_s_bsms, stab_s_u2}; }
broadcast proof fn stab_s_mparam<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_mparam(b, ix, p), s_mparam(c, ix, p)) { broadcast use {stab_s_cp_utf8_opt, stab_s_u2}; }
broadcast proof fn stab_s_mparams<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<MethodParameterEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_mparams(b, p, ix, n, acc), s_mparams(c, p, ix, n, acc)) decreases n { broadcast use stab_s_mparam;  if n > 0 { match s_mparam(b, ix, p) { Some((x_, ix2_)) => { stab_s_mparams(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_methodparameters<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_methodparameters(b, ix, p), s_methodparameters(c, ix, p)) { broadcast use {stab_s_mparams, stab_s_u1}; }
broadcast proof fn stab_s_requires<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_requires(b, ix, p), s_requires(c, ix, p)) { broadcast use {stab_s_cp_module, stab_s_cp_utf8_opt, stab_s_u2}; }
broadcast proof fn stab_s_requires_n<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<ModuleRequireEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_requires_n(b, p, ix, n, acc), s_requires_n(c, p, ix, n, acc)) decreases n { broadcast use stab_s_requires;  if n > 0 { match s_requires(b, ix, p) { Some((x_, ix2_)) => { stab_s_requires_n(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_exports<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_exports(b, ix, p), s_exports(c, ix, p)) { broadcast use {stab_s_cp_package, stab_s_module_list, stab_s_u2}; }
broadcast proof fn stab_s_exports_n<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<ModuleExportsEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_exports_n(b, p, ix, n, acc), s_exports_n(c, p, ix, n, acc)) decreases n { broadcast use stab_s_exports;  if n > 0 { match s_exports(b, ix, p) { Some((x_, ix2_)) => { stab_s_exports_n(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_opens<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_opens(b, ix, p), s_opens(c, ix, p)) { broadcast use {stab_s_cp_package, stab_s_module_list, stab_s_u2}; }
broadcast proof fn stab_s_opens_n<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<ModuleOpensEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_opens_n(b, p, ix, n, acc), s_opens_n(c, p, ix, n, acc)) decreases n { broadcast use stab_s_opens;  if n > 0 { match s_opens(b, ix, p) { Some((x_, ix2_)) => { stab_s_opens_n(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_provides<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_provides(b, ix, p), s_provides(c, ix, p)) { broadcast use {stab_s_class_list, stab_s_cp_class}; }
broadcast proof fn stab_s_provides_n<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<ModuleProvidesEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_provides_n(b, p, ix, n, acc), s_provides_n(c, p, ix, n, acc)) decreases n { broadcast use stab_s_provides;  if n > 0 { match s_provides(b, ix, p) { Some((x_, ix2_)) => { stab_s_provides_n(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_module_data<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_module_data(b, ix, p), s_module_data(c, ix, p)) { broadcast use {stab_s_class_list, stab_s_cp_module, stab_s_cp_utf8_opt, stab_s_exports_n, stab_s_opens_n, stab_s_provides_n, stab_s_requires_n, stab_s_u2}; }
broadcast proof fn stab_s_enclosing<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_enclosing(b, ix, p), s_enclosing(c, ix, p)) { broadcast use {stab_s_cp_class, stab_s_cp_nat_opt}; }
broadcast proof fn stab_s_cp_cname<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_cname(b, ix, p), s_cp_cname(c, ix, p)) { broadcast use stab_s_cp_class; }
broadcast proof fn stab_s_cp_cname_opt<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_cname_opt(b, ix, p), s_cp_cname_opt(c, ix, p)) { broadcast use stab_s_cp_class_opt; }
broadcast proof fn stab_s_ifaces<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, ix: int, n: int, acc: Seq<ClassName<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_ifaces(b, p, ix, n, acc), s_ifaces(c, p, ix, n, acc)) decreases n { broadcast use stab_s_cp_cname;  if n > 0 { match s_cp_cname(b, ix, p) { Some((x_, ix2_)) => { stab_s_ifaces(b, c, p, ix2_, n - 1, acc.push(x_)); }, None => {} } } }
broadcast proof fn stab_s_interfaces<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_interfaces(b, ix, p), s_interfaces(c, ix, p)) { broadcast use {stab_s_ifaces, stab_s_u2}; }
broadcast proof fn stab_s_cp_md<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) requires #[trigger] pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, #[trigger] s_cp_md(b, ix, p), s_cp_md(c, ix, p)) { broadcast use stab_s_cp_utf8; }
proof fn stab_s_entries<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, k: int, n: int, mv: u16, acc: Seq<FEntry<'a>>) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_entries(b, ix, k, n, mv, acc), s_entries(c, ix, k, n, mv, acc)) decreases n - k
{ broadcast use stab_s_entry; if k < n { match s_entry(b, ix, mv) { Some((e, ix2)) => { if is_wide(e) { if k + 1 < n { stab_s_entries(b, c, ix2, k + 2, n, mv, acc.push(e).push(FEntry::Unused)); } } else { stab_s_entries(b, c, ix2, k + 1, n, mv, acc.push(e)); } }, None => {} } } }
proof fn stab_s_pool<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, mv: u16) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_pool(b, ix, mv), s_pool(c, ix, mv))
{ hide(f_all_linkable); hide(f_all_valid); broadcast use stab_s_u2; match s_u2(b, ix) { Some((n, i)) => { stab_s_entries(b, c, i, 1, n as int, mv, seq![FEntry::Zero]); }, None => {} } }
proof fn stab_s_codedata<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_codedata(b, ix, p, pb, d), s_codedata(c, ix, p, pb, d)) decreases MAX_ATTRIBUTE_DEPTH - d, 0int, 0int
{ broadcast use {stab_s_u2, stab_s_u4, stab_s_exc_entries};
  if 0 <= d < MAX_ATTRIBUTE_DEPTH { match s_u2(b, ix) { Some((_, i1)) => match s_u2(b, i1) { Some((_, i2)) => match s_u4(b, i2) { Some((len, i3)) => if i3 + len <= b.len() {
    assert(b.subrange(i3, i3 + len) =~= c.subrange(i3, i3 + len));
    match s_u2(b, i3 + len) { Some((n, i4)) => match s_exc_entries(b, p, i4, n as int, Seq::empty()) { Some((_, i5)) => { stab_s_attrs(b, c, i5, p, pb, d + 1); }, None => {} }, None => {} }
  }, None => {} }, None => {} }, None => {} } } }
proof fn stab_s_component<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_component(b, ix, p, pb, d), s_component(c, ix, p, pb, d)) decreases MAX_ATTRIBUTE_DEPTH - d, 0int, 0int
{ broadcast use {stab_s_cp_utf8, stab_s_cp_fd};
  if 0 <= d < MAX_ATTRIBUTE_DEPTH { match s_cp_utf8(b, ix, p) { Some((_, i1)) => match s_cp_fd(b, i1, p) { Some((_, i2)) => { stab_s_attrs(b, c, i2, p, pb, d + 1); }, None => {} }, None => {} } } }
proof fn stab_s_components<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, d: int, ix: int, n: int, acc: Seq<RecordComponentEntry<'a>>) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_components(b, p, pb, d, ix, n, acc), s_components(c, p, pb, d, ix, n, acc)) decreases MAX_ATTRIBUTE_DEPTH - d, 1int, n
{ if n > 0 { stab_s_component(b, c, ix, p, pb, d); match s_component(b, ix, p, pb, d) { Some((x, i)) => { stab_s_components(b, c, p, pb, d, i, n - 1, acc.push(x)); }, None => {} } } }
proof fn stab_s_record<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_record(b, ix, p, pb, d), s_record(c, ix, p, pb, d)) decreases MAX_ATTRIBUTE_DEPTH - d, 2int, 0int
{ broadcast use stab_s_u2; match s_u2(b, ix) { Some((n, i)) => { stab_s_components(b, c, p, pb, d, i, n as int, Seq::empty()); }, None => {} } }
proof fn stab_s_data<'a>(name: Seq<char>, b: Seq<u8>, c: Seq<u8>, ix: int, len: int, p: Seq<FEntry<'a>>, pb: bool, d: int) requires pre(b, c), 0 <= ix, 0 <= len, ix + len <= b.len() ensures stab(b, ix, s_data(name, b, ix, len, p, pb, d), s_data(name, c, ix, len, p, pb, d)) decreases MAX_ATTRIBUTE_DEPTH - d, 3int, 0int
{ hide(s_cp_literal); hide(s_stackmap); hide(s_class_list); hide(s_innerclasses); hide(s_enclosing); hide(s_cp_utf8); hide(s_linenumbers); hide(s_localvariables); hide(s_localvariabletypes); hide(s_annotations); hide(s_parameter_annotations); hide(s_type_annotations); hide(s_bootstrapmethods); hide(s_methodparameters); hide(s_module_data); hide(s_package_list); hide(s_cp_class); hide(s_ev); hide(s_codedata); hide(s_record); hide(s_data); hide(attr_kind); broadcast use {stab_s_cp_literal, stab_s_stackmap, stab_s_class_list, stab_s_innerclasses, stab_s_enclosing, stab_s_cp_utf8, stab_s_linenumbers, stab_s_localvariables, stab_s_localvariabletypes, stab_s_annotations, stab_s_parameter_annotations, stab_s_type_annotations, stab_s_bootstrapmethods, stab_s_methodparameters, stab_s_module_data, stab_s_package_list, stab_s_cp_class}; let k = attr_kind(name);
  lemma_data(name, b, ix, len, p, pb, d); lemma_data(name, c, ix, len, p, pb, d);
  assert(b.subrange(ix, ix + len) =~= c.subrange(ix, ix + len));
  if k == 2 { stab_s_codedata(b, c, ix, p, pb, d); } else if k == 21 { stab_s_ev(b, c, ix, p, 0); } else if k == 30 { stab_s_record(b, c, ix, p, pb, d); } }
proof fn stab_s_attr<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_attr(b, ix, p, pb, d), s_attr(c, ix, p, pb, d)) decreases MAX_ATTRIBUTE_DEPTH - d, 4int, 0int
{ broadcast use {stab_s_cp_utf8, stab_s_u4}; match s_cp_utf8(b, ix, p) { Some((name, i)) => match s_u4(b, i) { Some((len, i2)) => if i2 + len <= b.len() { stab_s_data(cv(name), b, c, i2, len as int, p, pb, d); }, None => {} }, None => {} } }
proof fn stab_s_attrs_n<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, d: int, ix: int, n: int, acc: Seq<AttributeInfo<'a>>) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_attrs_n(b, p, pb, d, ix, n, acc), s_attrs_n(c, p, pb, d, ix, n, acc)) decreases MAX_ATTRIBUTE_DEPTH - d, 5int, n
{ if n > 0 { stab_s_attr(b, c, ix, p, pb, d); match s_attr(b, ix, p, pb, d) { Some((x, i)) => { stab_s_attrs_n(b, c, p, pb, d, i, n - 1, acc.push(x)); }, None => {} } } }
proof fn stab_s_attrs<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_attrs(b, ix, p, pb, d), s_attrs(c, ix, p, pb, d)) decreases MAX_ATTRIBUTE_DEPTH - d, 6int, 0int
{ broadcast use stab_s_u2; if 0 <= d < MAX_ATTRIBUTE_DEPTH { match s_u2(b, ix) { Some((n, i)) => { stab_s_attrs_n(b, c, p, pb, d, i, n as int, Seq::empty()); }, None => {} } } }
proof fn stab_s_fields_n<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, ix: int, n: int, acc: Seq<FieldInfo<'a>>) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_fields_n(b, p, pb, ix, n, acc), s_fields_n(c, p, pb, ix, n, acc)) decreases n
{ hide(field_keys); hide(fd_key); broadcast use {stab_s_u2, stab_s_cp_utf8, stab_s_cp_fd}; if n > 0 {
    match s_u2(b, ix) { Some((_, i1)) => match s_cp_utf8(b, i1, p) { Some((_, i2)) => match s_cp_fd(b, i2, p) { Some((_, i3)) => { stab_s_attrs(b, c, i3, p, pb, 0); }, None => {} }, None => {} }, None => {} }
    match s_field(b, ix, p, pb, acc) { Some((x, i)) => { stab_s_fields_n(b, c, p, pb, i, n - 1, acc.push(x)); }, None => {} } } }
proof fn stab_s_methods_n<'a>(b: Seq<u8>, c: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, iface: bool, mv: u16, ix: int, n: int, acc: Seq<MethodInfo<'a>>) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_methods_n(b, p, pb, iface, mv, ix, n, acc), s_methods_n(c, p, pb, iface, mv, ix, n, acc)) decreases n
{ hide(method_keys); hide(md_key); broadcast use {stab_s_u2, stab_s_cp_utf8, stab_s_cp_md}; if n > 0 {
    match s_u2(b, ix) { Some((_, i1)) => match s_cp_utf8(b, i1, p) { Some((_, i2)) => match s_cp_md(b, i2, p) { Some((_, i3)) => { stab_s_attrs(b, c, i3, p, pb, 0); }, None => {} }, None => {} }, None => {} }
    match s_method(b, ix, p, pb, iface, mv, acc) { Some((x, i)) => { stab_s_methods_n(b, c, p, pb, iface, mv, i, n - 1, acc.push(x)); }, None => {} } } }
proof fn stab_s_fields<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_fields(b, ix, p, pb), s_fields(c, ix, p, pb))
{ broadcast use stab_s_u2; match s_u2(b, ix) { Some((n, i)) => { stab_s_fields_n(b, c, p, pb, i, n as int, Seq::empty()); }, None => {} } }
proof fn stab_s_methods<'a>(b: Seq<u8>, c: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, iface: bool, mv: u16) requires pre(b, c), 0 <= ix <= b.len() ensures stab(b, ix, s_methods(b, ix, p, pb, iface, mv), s_methods(c, ix, p, pb, iface, mv))
{ broadcast use stab_s_u2; match s_u2(b, ix) { Some((n, i)) => { stab_s_methods_n(b, c, p, pb, iface, mv, i, n as int, Seq::empty()); }, None => {} } }
/// everything of a class file up to its end, and where that is
spec fn s_class_at<'a>(b: Seq<u8>, pb: bool) -> Option<(SClass<'a>, int)> {
  let (magic, ix) = s_u4(b, 0)?;
  require magic == 0xCAFE_BABE;
  let (minor, ix) = s_u2(b, ix)?;
  let (major, ix) = s_u2(b, ix)?;
  let (pool, ix) = s_pool(b, ix, major)?;
  let (f, ix) = s_u2(b, ix)?;
  require module_flags_ok(f, major);
  let (this_class, ix) = s_cp_cname(b, ix, pool)?;
  let (super_class, ix) = s_cp_cname_opt(b, ix, pool)?;
  let (interfaces, ix) = s_interfaces(b, ix, pool)?;
  let (fields, ix) = s_fields(b, ix, pool, pb)?;
  let (methods, ix) = s_methods(b, ix, pool, pb, f & 0x200 == 0x200, major)?;
  let (attributes, ix) = s_attrs(b, ix, pool, pb, 0)?;
  require f & 0x8000 == 0x8000 ==> super_class is None && interfaces@.len() == 0 && fields@.len() == 0 && methods@.len() == 0;
  require bootstrap_ok(pool, attributes@);
  Some((SClass { minor, major, pool, flags: ClassAccessFlags { bits: f & 0xf631u16 }, this_class, super_class, interfaces, fields, methods, attributes }, ix))
}
proof fn lemma_class_at<'a>(b: Seq<u8>, pb: bool)
  ensures match s_class(b, pb) { Some(s) => s_class_at(b, pb) == Some((s, b.len() as int)), None => match s_class_at(b, pb) { Some((_, e)) => e != b.len(), None => true } }
{ hide(s_attrs); hide(s_methods); hide(s_fields); hide(s_interfaces); hide(s_pool); hide(s_cp_cname); hide(s_cp_cname_opt); hide(be2); hide(be4); hide(bootstrap_ok); }
proof fn stab_s_class_at<'a>(b: Seq<u8>, c: Seq<u8>, pb: bool) requires pre(b, c) ensures stab(b, 0, s_class_at(b, pb), s_class_at(c, pb))
{
  hide(s_attrs); hide(s_methods); hide(s_fields); hide(s_interfaces); hide(s_pool); hide(s_cp_cname); hide(s_cp_cname_opt); hide(be2); hide(be4); hide(bootstrap_ok); broadcast use {stab_s_u2, stab_s_u4, stab_s_cp_cname, stab_s_cp_cname_opt, stab_s_interfaces};
  match s_u4(b, 0) { Some((_, i0)) => match s_u2(b, i0) { Some((_, i1)) => match s_u2(b, i1) { Some((mv, i2)) => { stab_s_pool(b, c, i2, mv); match s_pool(b, i2, mv) { Some((p, i3)) => match s_u2(b, i3) { Some((f, i4)) =>
    match s_cp_cname(b, i4, p) { Some((_, i5)) => match s_cp_cname_opt(b, i5, p) { Some((_, i6)) => match s_interfaces(b, i6, p) { Some((_, i7)) => { stab_s_fields(b, c, i7, p, pb); match s_fields(b, i7, p, pb) { Some((_, i8)) => {
      stab_s_methods(b, c, i8, p, pb, f & 0x200 == 0x200, mv);
      match s_methods(b, i8, p, pb, f & 0x200 == 0x200, mv) { Some((_, i9)) => { stab_s_attrs(b, c, i9, p, pb, 0); }, None => {} }
    }, None => {} } }, None => {} }, None => {} }, None => {} }, None => {} }, None => {} } }, None => {} }, None => {} }, None => {} }
}
/// THEOREM C03: of two byte sequences one of which is a proper prefix of the other, at most one is a class file
proof fn theorem_exact<'a>(b: Seq<u8>, c: Seq<u8>, pb: bool) requires pre(b, c), b.len() < c.len() ensures !(s_class(b, pb) is Some && s_class(c, pb) is Some)
{ lemma_class_at(b, pb); lemma_class_at(c, pb); stab_s_class_at(b, c, pb); }
