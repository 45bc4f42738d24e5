// ---- C11: attribute payloads (JVMS 4.7), by attribute
spec fn s_exc_entry<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(ExceptionTableEntry<'a>, int)> {
  let (start_pc, ix) = s_u2(b, ix)?;
  let (end_pc, ix) = s_u2(b, ix)?;
  let (handler_pc, ix) = s_u2(b, ix)?;
  let (catch_type, ix) = s_cp_class_opt(b, ix, p)?;
  Some((ExceptionTableEntry { start_pc, end_pc, handler_pc, catch_type }, ix))
}
rep s_exc_entries<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of ExceptionTableEntry<'a> = s_exc_entry(b, ix, p)
rep s_classes<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of Cow<'a, str> = s_cp_class(b, ix, p)
rep s_packages<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of Cow<'a, str> = s_cp_package(b, ix, p)
rep s_modules<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of Cow<'a, str> = s_cp_module(b, ix, p)
/// u2 count, then that many class / package references
spec fn s_class_list<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<Cow<'a, str>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_classes(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
spec fn s_package_list<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<Cow<'a, str>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_packages(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
spec fn s_module_list<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<Cow<'a, str>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_modules(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
// StackMapTable
spec fn s_vt<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(VerificationType<'a>, int)> {
  let (t, ix) = s_u1(b, ix)?;
  match t {
    0 => Some((VerificationType::Top, ix)),
    1 => Some((VerificationType::Integer, ix)),
    2 => Some((VerificationType::Float, ix)),
    3 => Some((VerificationType::Double, ix)),
    4 => Some((VerificationType::Long, ix)),
    5 => Some((VerificationType::Null, ix)),
    6 => Some((VerificationType::UninitializedThis, ix)),
    7 => match s_cp_class(b, ix, p) { Some((class_name, ix)) => Some((VerificationType::Object { class_name }, ix)), None => None },
    8 => match s_u2(b, ix) { Some((code_offset, ix)) => Some((VerificationType::Uninitialized { code_offset }, ix)), None => None },
    _ => None,
  }
}
rep s_vts<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of VerificationType<'a> = s_vt(b, ix, p)
spec fn s_frame_full<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(StackMapEntry<'a>, int)> {
  let (offset_delta, ix) = s_u2(b, ix)?;
  let (nl, ix) = s_u2(b, ix)?;
  let (locals, ix) = s_vts(b, p, ix, nl as int, Seq::empty())?;
  let (ns, ix) = s_u2(b, ix)?;
  let (stack, ix) = s_vts(b, p, ix, ns as int, Seq::empty())?;
  Some((StackMapEntry::FullFrame { offset_delta, locals: vec_of(locals), stack: vec_of(stack) }, ix))
}
spec fn s_frame_append<'a>(n: int, b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(StackMapEntry<'a>, int)> {
  let (offset_delta, ix) = s_u2(b, ix)?;
  let (locals, ix) = s_vts(b, p, ix, n, Seq::empty())?;
  Some((StackMapEntry::Append { offset_delta, locals: vec_of(locals) }, ix))
}
spec fn s_frame_item<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(StackMapEntry<'a>, int)> {
  let (offset_delta, ix) = s_u2(b, ix)?;
  let (stack, ix) = s_vt(b, ix, p)?;
  Some((StackMapEntry::SameLocals1StackItem { offset_delta, stack }, ix))
}
spec fn s_frame<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(StackMapEntry<'a>, int)> {
  let (t, ix) = s_u1(b, ix)?;
  if t <= 63 { Some((StackMapEntry::Same { offset_delta: t as u16 }, ix)) }
  else if t <= 127 { match s_vt(b, ix, p) { Some((stack, ix)) => Some((StackMapEntry::SameLocals1StackItem { offset_delta: (t - 64) as u16, stack }, ix)), None => None } }
  else if t <= 246 { None }
  else if t == 247 { s_frame_item(b, ix, p) }
  else if t <= 250 { match s_u2(b, ix) { Some((offset_delta, ix)) => Some((StackMapEntry::Chop { offset_delta, chop_count: (251 - t) as u16 }, ix)), None => None } }
  else if t == 251 { match s_u2(b, ix) { Some((offset_delta, ix)) => Some((StackMapEntry::Same { offset_delta }, ix)), None => None } }
  else if t <= 254 { s_frame_append(t - 251, b, ix, p) }
  else { s_frame_full(b, ix, p) }
}
rep s_frames<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of StackMapEntry<'a> = s_frame(b, ix, p)
spec fn s_stackmap<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<StackMapEntry<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_frames(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
// InnerClasses
spec fn s_inner<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(InnerClassEntry<'a>, int)> {
  let (inner_class_info, ix) = s_cp_class(b, ix, p)?;
  let (outer_class_info, ix) = s_cp_class_opt(b, ix, p)?;
  let (inner_name, ix) = s_cp_utf8_opt(b, ix, p)?;
  let (f, ix) = s_u2(b, ix)?;
  Some((InnerClassEntry { inner_class_info, outer_class_info, inner_name, access_flags: InnerClassAccessFlags { bits: f & 0x761fu16 } }, ix))
}
rep s_inners<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of InnerClassEntry<'a> = s_inner(b, ix, p)
spec fn s_innerclasses<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<InnerClassEntry<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_inners(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
// LineNumberTable
spec fn s_line(b: Seq<u8>, ix: int) -> Option<(LineNumberEntry, int)> {
  let (start_pc, ix) = s_u2(b, ix)?;
  let (line_number, ix) = s_u2(b, ix)?;
  Some((LineNumberEntry { start_pc, line_number }, ix))
}
rep s_lines(b: Seq<u8>) of LineNumberEntry = s_line(b, ix)
spec fn s_linenumbers(b: Seq<u8>, ix: int) -> Option<(Vec<LineNumberEntry>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_lines(b, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
// LocalVariableTable / LocalVariableTypeTable
/// a Utf8 reference to a field descriptor, parsed
spec fn s_cp_fd<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(FieldDescriptor<'a>, int)> {
  let (c, ix) = s_cp_utf8(b, ix, p)?;
  let d = s_fd_all(c)?;
  Some((d, ix))
}
spec fn s_localvar<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(LocalVariableEntry<'a>, int)> {
  let (start_pc, ix) = s_u2(b, ix)?;
  let (length, ix) = s_u2(b, ix)?;
  let (name, ix) = s_cp_utf8(b, ix, p)?;
  require s_unqualified(cv(name));
  let (descriptor, ix) = s_cp_fd(b, ix, p)?;
  let (index, ix) = s_u2(b, ix)?;
  Some((LocalVariableEntry { start_pc, length, name, descriptor, index }, ix))
}
rep s_localvars<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of LocalVariableEntry<'a> = s_localvar(b, ix, p)
spec fn s_localvariables<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<LocalVariableEntry<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_localvars(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
spec fn s_localvartype<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(LocalVariableTypeEntry<'a>, int)> {
  let (start_pc, ix) = s_u2(b, ix)?;
  let (length, ix) = s_u2(b, ix)?;
  let (name, ix) = s_cp_utf8(b, ix, p)?;
  require s_unqualified(cv(name));
  let (signature, ix) = s_cp_utf8(b, ix, p)?;
  let (index, ix) = s_u2(b, ix)?;
  Some((LocalVariableTypeEntry { start_pc, length, name, signature, index }, ix))
}
rep s_localvartypes<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of LocalVariableTypeEntry<'a> = s_localvartype(b, ix, p)
spec fn s_localvariabletypes<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<LocalVariableTypeEntry<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_localvartypes(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
// Annotations
spec fn s_ev_enum<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(AnnotationElementValue<'a>, int)> {
  let (type_name, ix) = s_cp_fd(b, ix, p)?;
  let (const_name, ix) = s_cp_utf8(b, ix, p)?;
  Some((AnnotationElementValue::EnumConstant { type_name, const_name }, ix))
}
spec fn s_ev_class<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(AnnotationElementValue<'a>, int)> {
  let (class_name, ix) = s_cp_utf8(b, ix, p)?;
  require s_is_rd(cv(class_name));
  Some((AnnotationElementValue::ClassLiteral { class_name }, ix))
}
/// element_value, nested at depth d
spec fn s_ev<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, d: int) -> Option<(AnnotationElementValue<'a>, int)> decreases MAX_ANNOTATION_DEPTH - d, 0int, 0int {
  require 0 <= d < MAX_ANNOTATION_DEPTH;
  let (t, ix) = s_u1(b, ix)?;
  match t {
    66 => match s_cp_integer(b, ix, p) { Some((v, ix)) => Some((AnnotationElementValue::ByteConstant(v), ix)), None => None },
    67 => match s_cp_integer(b, ix, p) { Some((v, ix)) => Some((AnnotationElementValue::CharConstant(v), ix)), None => None },
    68 => match s_cp_double(b, ix, p) { Some((v, ix)) => Some((AnnotationElementValue::DoubleConstant(v), ix)), None => None },
    70 => match s_cp_float(b, ix, p) { Some((v, ix)) => Some((AnnotationElementValue::FloatConstant(v), ix)), None => None },
    73 => match s_cp_integer(b, ix, p) { Some((v, ix)) => Some((AnnotationElementValue::IntConstant(v), ix)), None => None },
    74 => match s_cp_long(b, ix, p) { Some((v, ix)) => Some((AnnotationElementValue::LongConstant(v), ix)), None => None },
    83 => match s_cp_integer(b, ix, p) { Some((v, ix)) => Some((AnnotationElementValue::ShortConstant(v), ix)), None => None },
    90 => match s_cp_integer(b, ix, p) { Some((v, ix)) => Some((AnnotationElementValue::BooleanConstant(v), ix)), None => None },
    115 => match s_cp_utf8(b, ix, p) { Some((v, ix)) => Some((AnnotationElementValue::StringConstant(v), ix)), None => None },
    101 => s_ev_enum(b, ix, p),
    99 => s_ev_class(b, ix, p),
    64 => match s_ann(b, ix, p, d + 1) { Some((v, ix)) => Some((AnnotationElementValue::AnnotationValue(v), ix)), None => None },
    91 => match s_u2(b, ix) { Some((n, ix)) => match s_evs(b, p, d + 1, ix, n as int, Seq::empty()) { Some((v, ix)) => Some((AnnotationElementValue::ArrayValue(vec_of(v)), ix)), None => None }, None => None },
    _ => None,
  }
}
rep s_evs<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, d: int) of AnnotationElementValue<'a> = s_ev(b, ix, p, d) decreases MAX_ANNOTATION_DEPTH - d, 1int, n
spec fn s_elem<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, d: int) -> Option<(AnnotationElement<'a>, int)> decreases MAX_ANNOTATION_DEPTH - d, 1int, 0int {
  let (name, ix) = s_cp_utf8(b, ix, p)?;
  let (value, ix) = s_ev(b, ix, p, d)?;
  Some((AnnotationElement { name, value }, ix))
}
rep s_elems<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, d: int) of AnnotationElement<'a> = s_elem(b, ix, p, d) decreases MAX_ANNOTATION_DEPTH - d, 2int, n
spec fn s_ann<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, d: int) -> Option<(Annotation<'a>, int)> decreases MAX_ANNOTATION_DEPTH - d, 3int, 0int {
  let (type_descriptor, ix) = s_cp_fd(b, ix, p)?;
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_elems(b, p, d, ix, n as int, Seq::empty())?;
  Some((Annotation { type_descriptor, elements: vec_of(v) }, ix))
}
rep s_anns<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of Annotation<'a> = s_ann(b, ix, p, 0)
spec fn s_annotations<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<Annotation<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_anns(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
spec fn s_param_ann<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(ParameterAnnotation<'a>, int)> {
  let (v, ix) = s_annotations(b, ix, p)?;
  Some((ParameterAnnotation { annotations: v }, ix))
}
rep s_param_anns<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of ParameterAnnotation<'a> = s_param_ann(b, ix, p)
spec fn s_parameter_annotations<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<ParameterAnnotation<'a>>, int)> {
  let (n, ix) = s_u1(b, ix)?;
  let (v, ix) = s_param_anns(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
spec fn s_lv_target(b: Seq<u8>, ix: int) -> Option<(TypeAnnotationLocalVarTargetEntry, int)> {
  let (start_pc, ix) = s_u2(b, ix)?;
  let (length, ix) = s_u2(b, ix)?;
  let (index, ix) = s_u2(b, ix)?;
  Some((TypeAnnotationLocalVarTargetEntry { start_pc, length, index }, ix))
}
rep s_lv_targets(b: Seq<u8>) of TypeAnnotationLocalVarTargetEntry = s_lv_target(b, ix)
spec fn s_tgt_bound(b: Seq<u8>, ix: int) -> Option<(TypeAnnotationTarget, int)> {
  let (type_parameter_index, ix) = s_u1(b, ix)?;
  let (bound_index, ix) = s_u1(b, ix)?;
  Some((TypeAnnotationTarget::TypeParameterBound { type_parameter_index, bound_index }, ix))
}
spec fn s_tgt_lv(b: Seq<u8>, ix: int) -> Option<(TypeAnnotationTarget, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_lv_targets(b, ix, n as int, Seq::empty())?;
  Some((TypeAnnotationTarget::LocalVar(vec_of(v)), ix))
}
spec fn s_tgt_arg(b: Seq<u8>, ix: int) -> Option<(TypeAnnotationTarget, int)> {
  let (offset, ix) = s_u2(b, ix)?;
  let (type_argument_index, ix) = s_u1(b, ix)?;
  Some((TypeAnnotationTarget::TypeArgument { offset, type_argument_index }, ix))
}
spec fn s_target(b: Seq<u8>, ix: int) -> Option<(TypeAnnotationTarget, int)> {
  let (t, ix) = s_u1(b, ix)?;
  if t == 0 || t == 1 { match s_u1(b, ix) { Some((index, ix)) => Some((TypeAnnotationTarget::TypeParameter { index }, ix)), None => None } }
  else if t == 0x10 { match s_u2(b, ix) { Some((index, ix)) => Some((TypeAnnotationTarget::Supertype { index }, ix)), None => None } }
  else if t == 0x11 || t == 0x12 { s_tgt_bound(b, ix) }
  else if 0x13 <= t <= 0x15 { Some((TypeAnnotationTarget::Empty, ix)) }
  else if t == 0x16 { match s_u1(b, ix) { Some((index, ix)) => Some((TypeAnnotationTarget::FormalParameter { index }, ix)), None => None } }
  else if t == 0x17 { match s_u2(b, ix) { Some((index, ix)) => Some((TypeAnnotationTarget::Throws { index }, ix)), None => None } }
  else if t == 0x40 || t == 0x41 { s_tgt_lv(b, ix) }
  else if t == 0x42 { match s_u2(b, ix) { Some((exception_table_index, ix)) => Some((TypeAnnotationTarget::Catch { exception_table_index }, ix)), None => None } }
  else if 0x43 <= t <= 0x46 { match s_u2(b, ix) { Some((offset, ix)) => Some((TypeAnnotationTarget::Offset { offset }, ix)), None => None } }
  else if 0x47 <= t <= 0x4b { s_tgt_arg(b, ix) }
  else { None }
}
spec fn s_path(b: Seq<u8>, ix: int) -> Option<(TypeAnnotationTargetPathEntry, int)> {
  let (k, ix) = s_u1(b, ix)?;
  let k = (match k { 0 => Some(TypeAnnotationTargetPathKind::DeeperArray), 1 => Some(TypeAnnotationTargetPathKind::DeeperNested), 2 => Some(TypeAnnotationTargetPathKind::WildcardTypeArgument), 3 => Some(TypeAnnotationTargetPathKind::TypeArgument), _ => None })?;
  let (argument_index, ix) = s_u1(b, ix)?;
  Some((TypeAnnotationTargetPathEntry { path_kind: k, argument_index }, ix))
}
rep s_paths(b: Seq<u8>) of TypeAnnotationTargetPathEntry = s_path(b, ix)
spec fn s_type_ann<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(TypeAnnotation<'a>, int)> {
  let (target_type, ix) = s_target(b, ix)?;
  let (n, ix) = s_u1(b, ix)?;
  let (path, ix) = s_paths(b, ix, n as int, Seq::empty())?;
  let (annotation, ix) = s_ann(b, ix, p, 0)?;
  Some((TypeAnnotation { target_type, target_path: vec_of(path), annotation }, ix))
}
rep s_type_anns<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of TypeAnnotation<'a> = s_type_ann(b, ix, p)
spec fn s_type_annotations<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<TypeAnnotation<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_type_anns(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
// BootstrapMethods, MethodParameters
rep s_bsargs<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of BootstrapArgument<'a> = s_cp_bsarg(b, ix, p)
spec fn s_bsm<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(BootstrapMethodEntry<'a>, int)> {
  let (method, ix) = s_cp_mh(b, ix, p)?;
  let (n, ix) = s_u2(b, ix)?;
  let (args, ix) = s_bsargs(b, p, ix, n as int, Seq::empty())?;
  Some((BootstrapMethodEntry { method, arguments: vec_of(args) }, ix))
}
rep s_bsms<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of BootstrapMethodEntry<'a> = s_bsm(b, ix, p)
spec fn s_bootstrapmethods<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<BootstrapMethodEntry<'a>>, int)> {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_bsms(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
spec fn s_mparam<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(MethodParameterEntry<'a>, int)> {
  let (name, ix) = s_cp_utf8_opt(b, ix, p)?;
  require match name { Some(n) => s_unqualified(cv(n)), None => true };
  let (f, ix) = s_u2(b, ix)?;
  require f & !0x9010u16 == 0;
  Some((MethodParameterEntry { name, access_flags: MethodParameterAccessFlags { bits: f } }, ix))
}
rep s_mparams<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of MethodParameterEntry<'a> = s_mparam(b, ix, p)
spec fn s_methodparameters<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Vec<MethodParameterEntry<'a>>, int)> {
  let (n, ix) = s_u1(b, ix)?;
  let (v, ix) = s_mparams(b, p, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
// Module
spec fn s_requires<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(ModuleRequireEntry<'a>, int)> {
  let (name, ix) = s_cp_module(b, ix, p)?;
  let (f, ix) = s_u2(b, ix)?;
  require f & !0x9060u16 == 0;
  let (version, ix) = s_cp_utf8_opt(b, ix, p)?;
  Some((ModuleRequireEntry { name, flags: ModuleRequiresFlags { bits: f }, version }, ix))
}
rep s_requires_n<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of ModuleRequireEntry<'a> = s_requires(b, ix, p)
spec fn s_exports<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(ModuleExportsEntry<'a>, int)> {
  let (package_name, ix) = s_cp_package(b, ix, p)?;
  let (f, ix) = s_u2(b, ix)?;
  require f & !0x9000u16 == 0;
  let (exports_to, ix) = s_module_list(b, ix, p)?;
  Some((ModuleExportsEntry { package_name, flags: ModuleExportsFlags { bits: f }, exports_to }, ix))
}
rep s_exports_n<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of ModuleExportsEntry<'a> = s_exports(b, ix, p)
spec fn s_opens<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(ModuleOpensEntry<'a>, int)> {
  let (package_name, ix) = s_cp_package(b, ix, p)?;
  let (f, ix) = s_u2(b, ix)?;
  require f & !0x9000u16 == 0;
  let (opens_to, ix) = s_module_list(b, ix, p)?;
  Some((ModuleOpensEntry { package_name, flags: ModuleOpensFlags { bits: f }, opens_to }, ix))
}
rep s_opens_n<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of ModuleOpensEntry<'a> = s_opens(b, ix, p)
spec fn s_provides<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(ModuleProvidesEntry<'a>, int)> {
  let (service_interface_name, ix) = s_cp_class(b, ix, p)?;
  let (provides_with, ix) = s_class_list(b, ix, p)?;
  Some((ModuleProvidesEntry { service_interface_name, provides_with }, ix))
}
rep s_provides_n<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) of ModuleProvidesEntry<'a> = s_provides(b, ix, p)
spec fn s_module_data<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(ModuleData<'a>, int)> {
  let (name, ix) = s_cp_module(b, ix, p)?;
  let (f, ix) = s_u2(b, ix)?;
  require f & !0x9020u16 == 0;
  let (version, ix) = s_cp_utf8_opt(b, ix, p)?;
  let (n, ix) = s_u2(b, ix)?;
  let (requires_, ix) = s_requires_n(b, p, ix, n as int, Seq::empty())?;
  let (n, ix) = s_u2(b, ix)?;
  let (exports, ix) = s_exports_n(b, p, ix, n as int, Seq::empty())?;
  let (n, ix) = s_u2(b, ix)?;
  let (opens, ix) = s_opens_n(b, p, ix, n as int, Seq::empty())?;
  let (uses, ix) = s_class_list(b, ix, p)?;
  let (n, ix) = s_u2(b, ix)?;
  let (provides, ix) = s_provides_n(b, p, ix, n as int, Seq::empty())?;
  Some((ModuleData { name, access_flags: ModuleAccessFlags { bits: f }, version, requires: vec_of(requires_), exports: vec_of(exports), opens: vec_of(opens), uses, provides: vec_of(provides) }, ix))
}
// Code, Record, and the attribute list itself: mutually recursive, nested at depth d. pb: parse the bytecode
spec fn s_bytecode<'a>(code: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool) -> Option<Option<ByteCode<'a>>> {
  if pb { match s_code(code, p) { Some(c) => Some(Some(c)), None => None } } else { Some(None) }
}
spec fn s_codedata<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int) -> Option<(CodeData<'a>, int)> decreases MAX_ATTRIBUTE_DEPTH - d, 0int, 0int {
  require 0 <= d < MAX_ATTRIBUTE_DEPTH;
  let (max_stack, ix) = s_u2(b, ix)?;
  let (max_locals, ix) = s_u2(b, ix)?;
  let (len, ix) = s_u4(b, ix)?;
  require ix + len <= b.len();
  let code = b.subrange(ix, ix + len);
  let (n, ix) = s_u2(b, ix + len)?;
  let (exc, ix) = s_exc_entries(b, p, ix, n as int, Seq::empty())?;
  let (attributes, ix) = s_attrs(b, ix, p, pb, d + 1)?;
  let bytecode = s_bytecode(code, p, pb)?;
  Some((CodeData { max_stack, max_locals, code: slice_of(code), bytecode, exception_table: vec_of(exc), attributes }, ix))
}
spec fn s_component<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int) -> Option<(RecordComponentEntry<'a>, int)> decreases MAX_ATTRIBUTE_DEPTH - d, 0int, 0int {
  require 0 <= d < MAX_ATTRIBUTE_DEPTH;
  let (name, ix) = s_cp_utf8(b, ix, p)?;
  require s_unqualified(cv(name));
  let (descriptor, ix) = s_cp_fd(b, ix, p)?;
  let (attributes, ix) = s_attrs(b, ix, p, pb, d + 1)?;
  Some((RecordComponentEntry { name, descriptor, attributes }, ix))
}
rep s_components<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, d: int) of RecordComponentEntry<'a> = s_component(b, ix, p, pb, d) decreases MAX_ATTRIBUTE_DEPTH - d, 1int, n
spec fn s_record<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int) -> Option<(Vec<RecordComponentEntry<'a>>, int)> decreases MAX_ATTRIBUTE_DEPTH - d, 2int, 0int {
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_components(b, p, pb, d, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
spec fn s_enclosing<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(AttributeData<'a>, int)> {
  let (class_name, ix) = s_cp_class(b, ix, p)?;
  let (method, ix) = s_cp_nat_opt(b, ix, p)?;
  Some((AttributeData::EnclosingMethod { class_name, method }, ix))
}
/// the attribute kinds, in the order of JVMS 4.7; 0 for a name that is none of them
spec fn attr_kind(name: Seq<char>) -> u8 {
  if name == "ConstantValue"@ { 1 }
  else if name == "Code"@ { 2 }
  else if name == "StackMapTable"@ { 3 }
  else if name == "Exceptions"@ { 4 }
  else if name == "InnerClasses"@ { 5 }
  else if name == "EnclosingMethod"@ { 6 }
  else if name == "Synthetic"@ { 7 }
  else if name == "Signature"@ { 8 }
  else if name == "SourceFile"@ { 9 }
  else if name == "SourceDebugExtension"@ { 10 }
  else if name == "LineNumberTable"@ { 11 }
  else if name == "LocalVariableTable"@ { 12 }
  else if name == "LocalVariableTypeTable"@ { 13 }
  else if name == "Deprecated"@ { 14 }
  else if name == "RuntimeVisibleAnnotations"@ { 15 }
  else if name == "RuntimeInvisibleAnnotations"@ { 16 }
  else if name == "RuntimeVisibleParameterAnnotations"@ { 17 }
  else if name == "RuntimeInvisibleParameterAnnotations"@ { 18 }
  else if name == "RuntimeVisibleTypeAnnotations"@ { 19 }
  else if name == "RuntimeInvisibleTypeAnnotations"@ { 20 }
  else if name == "AnnotationDefault"@ { 21 }
  else if name == "BootstrapMethods"@ { 22 }
  else if name == "MethodParameters"@ { 23 }
  else if name == "Module"@ { 24 }
  else if name == "ModulePackages"@ { 25 }
  else if name == "ModuleMainClass"@ { 26 }
  else if name == "NestHost"@ { 27 }
  else if name == "NestMembers"@ { 28 }
  else if name == "PermittedSubclasses"@ { 29 }
  else if name == "Record"@ { 30 }
  else { 0 }
}
proof fn lemma_attr_kinds()
  ensures attr_kind("ConstantValue"@) == 1, attr_kind("Code"@) == 2, attr_kind("StackMapTable"@) == 3, attr_kind("Exceptions"@) == 4, attr_kind("InnerClasses"@) == 5, attr_kind("EnclosingMethod"@) == 6, attr_kind("Synthetic"@) == 7, attr_kind("Signature"@) == 8, attr_kind("SourceFile"@) == 9, attr_kind("SourceDebugExtension"@) == 10, attr_kind("LineNumberTable"@) == 11, attr_kind("LocalVariableTable"@) == 12, attr_kind("LocalVariableTypeTable"@) == 13, attr_kind("Deprecated"@) == 14, attr_kind("RuntimeVisibleAnnotations"@) == 15, attr_kind("RuntimeInvisibleAnnotations"@) == 16, attr_kind("RuntimeVisibleParameterAnnotations"@) == 17, attr_kind("RuntimeInvisibleParameterAnnotations"@) == 18, attr_kind("RuntimeVisibleTypeAnnotations"@) == 19, attr_kind("RuntimeInvisibleTypeAnnotations"@) == 20, attr_kind("AnnotationDefault"@) == 21, attr_kind("BootstrapMethods"@) == 22, attr_kind("MethodParameters"@) == 23, attr_kind("Module"@) == 24, attr_kind("ModulePackages"@) == 25, attr_kind("ModuleMainClass"@) == 26, attr_kind("NestHost"@) == 27, attr_kind("NestMembers"@) == 28, attr_kind("PermittedSubclasses"@) == 29, attr_kind("Record"@) == 30,
    forall|x: Seq<char>| (x != "ConstantValue"@ && x != "Code"@ && x != "StackMapTable"@ && x != "Exceptions"@ && x != "InnerClasses"@ && x != "EnclosingMethod"@ && x != "Synthetic"@ && x != "Signature"@ && x != "SourceFile"@ && x != "SourceDebugExtension"@ && x != "LineNumberTable"@ && x != "LocalVariableTable"@ && x != "LocalVariableTypeTable"@ && x != "Deprecated"@ && x != "RuntimeVisibleAnnotations"@ && x != "RuntimeInvisibleAnnotations"@ && x != "RuntimeVisibleParameterAnnotations"@ && x != "RuntimeInvisibleParameterAnnotations"@ && x != "RuntimeVisibleTypeAnnotations"@ && x != "RuntimeInvisibleTypeAnnotations"@ && x != "AnnotationDefault"@ && x != "BootstrapMethods"@ && x != "MethodParameters"@ && x != "Module"@ && x != "ModulePackages"@ && x != "ModuleMainClass"@ && x != "NestHost"@ && x != "NestMembers"@ && x != "PermittedSubclasses"@ && x != "Record"@) ==> #[trigger] attr_kind(x) == 0,
{
  reveal_strlit("ConstantValue"); reveal_strlit("Code"); reveal_strlit("StackMapTable"); reveal_strlit("Exceptions"); reveal_strlit("InnerClasses"); reveal_strlit("EnclosingMethod"); reveal_strlit("Synthetic"); reveal_strlit("Signature"); reveal_strlit("SourceFile"); reveal_strlit("SourceDebugExtension"); reveal_strlit("LineNumberTable"); reveal_strlit("LocalVariableTable"); reveal_strlit("LocalVariableTypeTable"); reveal_strlit("Deprecated"); reveal_strlit("RuntimeVisibleAnnotations"); reveal_strlit("RuntimeInvisibleAnnotations"); reveal_strlit("RuntimeVisibleParameterAnnotations"); reveal_strlit("RuntimeInvisibleParameterAnnotations"); reveal_strlit("RuntimeVisibleTypeAnnotations"); reveal_strlit("RuntimeInvisibleTypeAnnotations"); reveal_strlit("AnnotationDefault"); reveal_strlit("BootstrapMethods"); reveal_strlit("MethodParameters"); reveal_strlit("Module"); reveal_strlit("ModulePackages"); reveal_strlit("ModuleMainClass"); reveal_strlit("NestHost"); reveal_strlit("NestMembers"); reveal_strlit("PermittedSubclasses"); reveal_strlit("Record");
  assert("StackMapTable"@[0] != "ConstantValue"@[0]);
  assert("Signature"@[1] != "Synthetic"@[1]);
  assert("SourceFile"@[0] != "Exceptions"@[0]);
  assert("LineNumberTable"@[0] != "EnclosingMethod"@[0]);
  assert("Deprecated"@[0] != "Exceptions"@[0]);
  assert("Deprecated"@[0] != "SourceFile"@[0]);
  assert("MethodParameters"@[0] != "BootstrapMethods"@[0]);
  assert("ModuleMainClass"@[0] != "EnclosingMethod"@[0]);
  assert("ModuleMainClass"@[0] != "LineNumberTable"@[0]);
  assert("Record"@[0] != "Module"@[0]);
}
/// the payload of the attribute called name, of len bytes from ix on; the payload must end where it ends
spec fn s_data<'a>(name: Seq<char>, b: Seq<u8>, ix: int, len: int, p: Seq<FEntry<'a>>, pb: bool, d: int) -> Option<(AttributeData<'a>, int)> decreases MAX_ATTRIBUTE_DEPTH - d, 3int, 0int {
  match attr_kind(name) {
    1 => if len != 2 { None } else { match s_cp_literal(b, ix, p) { Some((v, ix)) => Some((AttributeData::ConstantValue(v), ix)), None => None } }, // ConstantValue
    2 => match s_codedata(b, ix, p, pb, d) { Some((v, ix)) => Some((AttributeData::Code(v), ix)), None => None }, // Code
    3 => match s_stackmap(b, ix, p) { Some((v, ix)) => Some((AttributeData::StackMapTable(v), ix)), None => None }, // StackMapTable
    4 => match s_class_list(b, ix, p) { Some((v, ix)) => Some((AttributeData::Exceptions(v), ix)), None => None }, // Exceptions
    5 => match s_innerclasses(b, ix, p) { Some((v, ix)) => Some((AttributeData::InnerClasses(v), ix)), None => None }, // InnerClasses
    6 => if len != 4 { None } else { s_enclosing(b, ix, p) }, // EnclosingMethod
    7 => if len != 0 { None } else { Some((AttributeData::Synthetic, ix)) }, // Synthetic
    8 => if len != 2 { None } else { match s_cp_utf8(b, ix, p) { Some((v, ix)) => Some((AttributeData::Signature(v), ix)), None => None } }, // Signature
    9 => if len != 2 { None } else { match s_cp_utf8(b, ix, p) { Some((v, ix)) => Some((AttributeData::SourceFile(v), ix)), None => None } }, // SourceFile
    10 => match cesu8::decode(b.subrange(ix, ix + len)) { Some(v) => Some((AttributeData::SourceDebugExtension(v), ix + len)), None => None }, // SourceDebugExtension
    11 => match s_linenumbers(b, ix) { Some((v, ix)) => Some((AttributeData::LineNumberTable(v), ix)), None => None }, // LineNumberTable
    12 => match s_localvariables(b, ix, p) { Some((v, ix)) => Some((AttributeData::LocalVariableTable(v), ix)), None => None }, // LocalVariableTable
    13 => match s_localvariabletypes(b, ix, p) { Some((v, ix)) => Some((AttributeData::LocalVariableTypeTable(v), ix)), None => None }, // LocalVariableTypeTable
    14 => if len != 0 { None } else { Some((AttributeData::Deprecated, ix)) }, // Deprecated
    15 => match s_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeVisibleAnnotations(v), ix)), None => None }, // RuntimeVisibleAnnotations
    16 => match s_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeInvisibleAnnotations(v), ix)), None => None }, // RuntimeInvisibleAnnotations
    17 => match s_parameter_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeVisibleParameterAnnotations(v), ix)), None => None }, // RuntimeVisibleParameterAnnotations
    18 => match s_parameter_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeInvisibleParameterAnnotations(v), ix)), None => None }, // RuntimeInvisibleParameterAnnotations
    19 => match s_type_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeVisibleTypeAnnotations(v), ix)), None => None }, // RuntimeVisibleTypeAnnotations
    20 => match s_type_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeInvisibleTypeAnnotations(v), ix)), None => None }, // RuntimeInvisibleTypeAnnotations
    21 => match s_ev(b, ix, p, 0) { Some((v, ix)) => Some((AttributeData::AnnotationDefault(v), ix)), None => None }, // AnnotationDefault
    22 => match s_bootstrapmethods(b, ix, p) { Some((v, ix)) => Some((AttributeData::BootstrapMethods(v), ix)), None => None }, // BootstrapMethods
    23 => match s_methodparameters(b, ix, p) { Some((v, ix)) => Some((AttributeData::MethodParameters(v), ix)), None => None }, // MethodParameters
    24 => match s_module_data(b, ix, p) { Some((v, ix)) => Some((AttributeData::Module(v), ix)), None => None }, // Module
    25 => match s_package_list(b, ix, p) { Some((v, ix)) => Some((AttributeData::ModulePackages(v), ix)), None => None }, // ModulePackages
    26 => if len != 2 { None } else { match s_cp_class(b, ix, p) { Some((v, ix)) => Some((AttributeData::ModuleMainClass(v), ix)), None => None } }, // ModuleMainClass
    27 => if len != 2 { None } else { match s_cp_class(b, ix, p) { Some((v, ix)) => Some((AttributeData::NestHost(v), ix)), None => None } }, // NestHost
    28 => match s_class_list(b, ix, p) { Some((v, ix)) => Some((AttributeData::NestMembers(v), ix)), None => None }, // NestMembers
    29 => match s_class_list(b, ix, p) { Some((v, ix)) => Some((AttributeData::PermittedSubclasses(v), ix)), None => None }, // PermittedSubclasses
    30 => match s_record(b, ix, p, pb, d) { Some((v, ix)) => Some((AttributeData::Record(v), ix)), None => None }, // Record
    _ => Some((AttributeData::Other(slice_of(b.subrange(ix, ix + len))), ix + len)),
  }
}
spec fn s_attr<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int) -> Option<(AttributeInfo<'a>, int)> decreases MAX_ATTRIBUTE_DEPTH - d, 4int, 0int {
  let (name, ix) = s_cp_utf8(b, ix, p)?;
  let (len, ix) = s_u4(b, ix)?;
  require ix + len <= b.len();
  let (data, end) = s_data(cv(name), b, ix, len as int, p, pb, d)?;
  require end == ix + len;
  Some((AttributeInfo { name, data }, end))
}
rep s_attrs_n<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, pb: bool, d: int) of AttributeInfo<'a> = s_attr(b, ix, p, pb, d) decreases MAX_ATTRIBUTE_DEPTH - d, 5int, n
spec fn s_attrs<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int) -> Option<(Vec<AttributeInfo<'a>>, int)> decreases MAX_ATTRIBUTE_DEPTH - d, 6int, 0int {
  require 0 <= d < MAX_ATTRIBUTE_DEPTH;
  let (n, ix) = s_u2(b, ix)?;
  let (v, ix) = s_attrs_n(b, p, pb, d, ix, n as int, Seq::empty())?;
  Some((vec_of(v), ix))
}
proof fn lemma_attrs<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int)
  ensures d >= MAX_ATTRIBUTE_DEPTH ==> s_attrs(b, ix, p, pb, d) is None,
    0 <= d < MAX_ATTRIBUTE_DEPTH ==> match s_u2(b, ix) { None => s_attrs(b, ix, p, pb, d) is None, Some((n, ix2)) => match s_attrs_n(b, p, pb, d, ix2, n as int, Seq::empty()) { None => s_attrs(b, ix, p, pb, d) is None, Some((v, e)) => s_attrs(b, ix, p, pb, d) == Some((vec_of(v), e)) } },
{}
proof fn lemma_attr<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int)
  ensures match s_cp_utf8(b, ix, p) {
    None => s_attr(b, ix, p, pb, d) is None,
    Some((name, ix2)) => match s_u4(b, ix2) {
      None => s_attr(b, ix, p, pb, d) is None,
      Some((len, ix3)) => if ix3 + len > b.len() { s_attr(b, ix, p, pb, d) is None } else { match s_data_open(cv(name), b, ix3, len as int, p, pb, d) {
        None => s_attr(b, ix, p, pb, d) is None,
        Some((data, end)) => if end == ix3 + len { s_attr(b, ix, p, pb, d) == Some((AttributeInfo { name, data }, end)) } else { s_attr(b, ix, p, pb, d) is None } } } } },
{
  match s_cp_utf8(b, ix, p) { Some((name, ix2)) => match s_u4(b, ix2) { Some((len, ix3)) => { lemma_data(cv(name), b, ix3, len as int, p, pb, d); } None => {} } None => {} }
}
/// s_data, as a function outside the recursion
spec fn s_data_open<'a>(name: Seq<char>, b: Seq<u8>, ix: int, len: int, p: Seq<FEntry<'a>>, pb: bool, d: int) -> Option<(AttributeData<'a>, int)> {
  match attr_kind(name) {
    1 => if len != 2 { None } else { match s_cp_literal(b, ix, p) { Some((v, ix)) => Some((AttributeData::ConstantValue(v), ix)), None => None } },
    2 => match s_codedata(b, ix, p, pb, d) { Some((v, ix)) => Some((AttributeData::Code(v), ix)), None => None },
    3 => match s_stackmap(b, ix, p) { Some((v, ix)) => Some((AttributeData::StackMapTable(v), ix)), None => None },
    4 => match s_class_list(b, ix, p) { Some((v, ix)) => Some((AttributeData::Exceptions(v), ix)), None => None },
    5 => match s_innerclasses(b, ix, p) { Some((v, ix)) => Some((AttributeData::InnerClasses(v), ix)), None => None },
    6 => if len != 4 { None } else { s_enclosing(b, ix, p) },
    7 => if len != 0 { None } else { Some((AttributeData::Synthetic, ix)) },
    8 => if len != 2 { None } else { match s_cp_utf8(b, ix, p) { Some((v, ix)) => Some((AttributeData::Signature(v), ix)), None => None } },
    9 => if len != 2 { None } else { match s_cp_utf8(b, ix, p) { Some((v, ix)) => Some((AttributeData::SourceFile(v), ix)), None => None } },
    10 => match cesu8::decode(b.subrange(ix, ix + len)) { Some(v) => Some((AttributeData::SourceDebugExtension(v), ix + len)), None => None },
    11 => match s_linenumbers(b, ix) { Some((v, ix)) => Some((AttributeData::LineNumberTable(v), ix)), None => None },
    12 => match s_localvariables(b, ix, p) { Some((v, ix)) => Some((AttributeData::LocalVariableTable(v), ix)), None => None },
    13 => match s_localvariabletypes(b, ix, p) { Some((v, ix)) => Some((AttributeData::LocalVariableTypeTable(v), ix)), None => None },
    14 => if len != 0 { None } else { Some((AttributeData::Deprecated, ix)) },
    15 => match s_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeVisibleAnnotations(v), ix)), None => None },
    16 => match s_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeInvisibleAnnotations(v), ix)), None => None },
    17 => match s_parameter_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeVisibleParameterAnnotations(v), ix)), None => None },
    18 => match s_parameter_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeInvisibleParameterAnnotations(v), ix)), None => None },
    19 => match s_type_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeVisibleTypeAnnotations(v), ix)), None => None },
    20 => match s_type_annotations(b, ix, p) { Some((v, ix)) => Some((AttributeData::RuntimeInvisibleTypeAnnotations(v), ix)), None => None },
    21 => match s_ev(b, ix, p, 0) { Some((v, ix)) => Some((AttributeData::AnnotationDefault(v), ix)), None => None },
    22 => match s_bootstrapmethods(b, ix, p) { Some((v, ix)) => Some((AttributeData::BootstrapMethods(v), ix)), None => None },
    23 => match s_methodparameters(b, ix, p) { Some((v, ix)) => Some((AttributeData::MethodParameters(v), ix)), None => None },
    24 => match s_module_data(b, ix, p) { Some((v, ix)) => Some((AttributeData::Module(v), ix)), None => None },
    25 => match s_package_list(b, ix, p) { Some((v, ix)) => Some((AttributeData::ModulePackages(v), ix)), None => None },
    26 => if len != 2 { None } else { match s_cp_class(b, ix, p) { Some((v, ix)) => Some((AttributeData::ModuleMainClass(v), ix)), None => None } },
    27 => if len != 2 { None } else { match s_cp_class(b, ix, p) { Some((v, ix)) => Some((AttributeData::NestHost(v), ix)), None => None } },
    28 => match s_class_list(b, ix, p) { Some((v, ix)) => Some((AttributeData::NestMembers(v), ix)), None => None },
    29 => match s_class_list(b, ix, p) { Some((v, ix)) => Some((AttributeData::PermittedSubclasses(v), ix)), None => None },
    30 => match s_record(b, ix, p, pb, d) { Some((v, ix)) => Some((AttributeData::Record(v), ix)), None => None },
    _ => Some((AttributeData::Other(slice_of(b.subrange(ix, ix + len))), ix + len)),
  }
}
proof fn lemma_data<'a>(name: Seq<char>, b: Seq<u8>, ix: int, len: int, p: Seq<FEntry<'a>>, pb: bool, d: int)
  ensures s_data(name, b, ix, len, p, pb, d) == s_data_open(name, b, ix, len, p, pb, d),
{}
proof fn lemma_record<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int)
  ensures s_record(b, ix, p, pb, d) == match s_u2(b, ix) { None => None, Some((n, ix2)) => match s_components(b, p, pb, d, ix2, n as int, Seq::empty()) { None => None, Some((v, e)) => Some((vec_of(v), e)) } },
{}
proof fn lemma_component<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, pb: bool, d: int)
  requires 0 <= d < MAX_ATTRIBUTE_DEPTH
  ensures s_component(b, ix, p, pb, d) == match s_cp_utf8(b, ix, p) { None => None, Some((name, ix)) => if !s_unqualified(cv(name)) { None } else { match s_cp_fd(b, ix, p) { None => None, Some((descriptor, ix)) => match s_attrs(b, ix, p, pb, d + 1) { None => None, Some((attributes, ix)) => Some((RecordComponentEntry { name, descriptor, attributes }, ix)) } } } },
{}
