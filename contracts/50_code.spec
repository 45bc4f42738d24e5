// ---- C09: one instruction (JVMS 6.5), operands included
spec fn s_i32s_at(b: Seq<u8>, ix: int) -> Option<(i32, int)> { let (v, ix) = s_u4(b, ix)?;
  Some((v as i32, ix)) }
rep s_jumps(b: Seq<u8>) of i32 = s_i32s_at(b, ix)
spec fn s_pair(b: Seq<u8>, ix: int) -> Option<((i32, i32), int)> { let (m, ix) = s_u4(b, ix)?;
  let (o, ix) = s_u4(b, ix)?;
  Some(((m as i32, o as i32), ix)) }
rep s_pairs(b: Seq<u8>) of (i32, i32) = s_pair(b, ix)
spec fn align4(ix: int) -> int { ((ix + 3) / 4) * 4 }
spec fn s_tableswitch<'a>(b: Seq<u8>, ix: int) -> Option<(Opcode<'a>, int)> {
  let (d, ix) = s_u4(b, align4(ix))?;
  let (lo, ix) = s_u4(b, ix)?;
  let (hi, ix) = s_u4(b, ix)?;
  require lo as i32 <= hi as i32;
  let (jumps, ix) = s_jumps(b, ix, (hi as i32) as int - (lo as i32) as int + 1, Seq::empty())?;
  Some((Opcode::Tableswitch(RangeTable { default: d as i32, low: lo as i32, high: hi as i32, jumps: vec_of(jumps) }), ix))
}
spec fn s_lookupswitch<'a>(b: Seq<u8>, ix: int) -> Option<(Opcode<'a>, int)> {
  let (d, ix) = s_u4(b, align4(ix))?;
  let (n, ix) = s_u4(b, ix)?;
  require 0 <= n as i32;
  let (pairs, ix) = s_pairs(b, ix, (n as i32) as int, Seq::empty())?;
  Some((Opcode::Lookupswitch(LookupTable { default: d as i32, match_offsets: vec_of(pairs) }), ix))
}
spec fn s_wide<'a>(b: Seq<u8>, ix: int) -> Option<(Opcode<'a>, int)> {
  let (t, ix) = s_u1(b, ix)?;
  let (v, ix) = s_u2(b, ix)?;
  match t {
    0x15 => Some((Opcode::Iload(v), ix)),
    0x16 => Some((Opcode::Lload(v), ix)),
    0x17 => Some((Opcode::Fload(v), ix)),
    0x18 => Some((Opcode::Dload(v), ix)),
    0x19 => Some((Opcode::Aload(v), ix)),
    0x36 => Some((Opcode::Istore(v), ix)),
    0x37 => Some((Opcode::Lstore(v), ix)),
    0x38 => Some((Opcode::Fstore(v), ix)),
    0x39 => Some((Opcode::Dstore(v), ix)),
    0x3a => Some((Opcode::Astore(v), ix)),
    0x84 => match s_u2(b, ix) { Some((c, ix)) => Some((Opcode::Iinc(v, c as i16), ix)), None => None },
    0xa9 => Some((Opcode::Ret(v), ix)),
    _ => None,
  }
}
spec fn s_array_type(t: u8) -> Option<PrimitiveArrayType> {
  match t { 4 => Some(PrimitiveArrayType::Boolean), 5 => Some(PrimitiveArrayType::Char), 6 => Some(PrimitiveArrayType::Float), 7 => Some(PrimitiveArrayType::Double),
    8 => Some(PrimitiveArrayType::Byte), 9 => Some(PrimitiveArrayType::Short), 10 => Some(PrimitiveArrayType::Int), 11 => Some(PrimitiveArrayType::Long), _ => None }
}
spec fn s_invokeinterface<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Opcode<'a>, int)> {
  let (m, ix) = s_cp_member(b, ix, p, false, false, true)?;
  let (count, ix) = s_u1(b, ix)?;
  let (z, ix) = s_u1(b, ix)?;
  require z == 0;
  Some((Opcode::Invokeinterface(m, count), ix))
}
spec fn s_invokedynamic<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Opcode<'a>, int)> {
  let (m, ix) = s_cp_indy(b, ix, p)?;
  let (z, ix) = s_u2(b, ix)?;
  require z == 0;
  Some((Opcode::Invokedynamic(m), ix))
}
spec fn s_newarray<'a>(b: Seq<u8>, ix: int) -> Option<(Opcode<'a>, int)> {
  let (t, ix) = s_u1(b, ix)?;
  let t = s_array_type(t)?;
  Some((Opcode::Newarray(t), ix))
}
spec fn s_multianewarray<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Opcode<'a>, int)> {
  let (t, ix) = s_cp_oat(b, ix, p)?;
  let (d, ix) = s_u1(b, ix)?;
  Some((Opcode::Multianewarray(t, d), ix))
}
spec fn s_iinc<'a>(b: Seq<u8>, ix: int) -> Option<(Opcode<'a>, int)> {
  let (v, ix) = s_u1(b, ix)?;
  let (c, ix) = s_u1(b, ix)?;
  Some((Opcode::Iinc(v as u16, (c as i8) as i16), ix))
}
spec fn s_ldc1<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Loadable<'a>, int)> {
  let (i, ix) = s_u1(b, ix)?;
  let l = f_loadable(p, i as int)?;
  Some((l, ix))
}
spec fn s_ldc2<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Loadable<'a>, int)> {
  let (i, ix) = s_u2(b, ix)?;
  let l = f_loadable(p, i as int)?;
  Some((l, ix))
}
/// the instruction with opcode t and operands at ix
spec fn s_op<'a>(t: u8, b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>) -> Option<(Opcode<'a>, int)> {
  match t {
    0x00 => Some((Opcode::Nop, ix)),
    0x01 => Some((Opcode::AconstNull, ix)),
    0x02 => Some((Opcode::IconstM1, ix)),
    0x03 => Some((Opcode::Iconst0, ix)),
    0x04 => Some((Opcode::Iconst1, ix)),
    0x05 => Some((Opcode::Iconst2, ix)),
    0x06 => Some((Opcode::Iconst3, ix)),
    0x07 => Some((Opcode::Iconst4, ix)),
    0x08 => Some((Opcode::Iconst5, ix)),
    0x09 => Some((Opcode::Lconst0, ix)),
    0x0a => Some((Opcode::Lconst1, ix)),
    0x0b => Some((Opcode::Fconst0, ix)),
    0x0c => Some((Opcode::Fconst1, ix)),
    0x0d => Some((Opcode::Fconst2, ix)),
    0x0e => Some((Opcode::Dconst0, ix)),
    0x0f => Some((Opcode::Dconst1, ix)),
    0x10 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Bipush(x as i8), ix)), None => None },
    0x11 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Sipush(x as i16), ix)), None => None },
    0x12 => match s_ldc1(b, ix, p) { Some((x, ix)) => Some((Opcode::Ldc(x), ix)), None => None },
    0x13 => match s_ldc2(b, ix, p) { Some((x, ix)) => Some((Opcode::LdcW(x), ix)), None => None },
    0x14 => match s_ldc2(b, ix, p) { Some((x, ix)) => Some((Opcode::Ldc2W(x), ix)), None => None },
    0x15 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Iload(x as u16), ix)), None => None },
    0x16 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Lload(x as u16), ix)), None => None },
    0x17 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Fload(x as u16), ix)), None => None },
    0x18 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Dload(x as u16), ix)), None => None },
    0x19 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Aload(x as u16), ix)), None => None },
    0x1a => Some((Opcode::Iload(0), ix)),
    0x1b => Some((Opcode::Iload(1), ix)),
    0x1c => Some((Opcode::Iload(2), ix)),
    0x1d => Some((Opcode::Iload(3), ix)),
    0x1e => Some((Opcode::Lload(0), ix)),
    0x1f => Some((Opcode::Lload(1), ix)),
    0x20 => Some((Opcode::Lload(2), ix)),
    0x21 => Some((Opcode::Lload(3), ix)),
    0x22 => Some((Opcode::Fload(0), ix)),
    0x23 => Some((Opcode::Fload(1), ix)),
    0x24 => Some((Opcode::Fload(2), ix)),
    0x25 => Some((Opcode::Fload(3), ix)),
    0x26 => Some((Opcode::Dload(0), ix)),
    0x27 => Some((Opcode::Dload(1), ix)),
    0x28 => Some((Opcode::Dload(2), ix)),
    0x29 => Some((Opcode::Dload(3), ix)),
    0x2a => Some((Opcode::Aload(0), ix)),
    0x2b => Some((Opcode::Aload(1), ix)),
    0x2c => Some((Opcode::Aload(2), ix)),
    0x2d => Some((Opcode::Aload(3), ix)),
    0x2e => Some((Opcode::Iaload, ix)),
    0x2f => Some((Opcode::Laload, ix)),
    0x30 => Some((Opcode::Faload, ix)),
    0x31 => Some((Opcode::Daload, ix)),
    0x32 => Some((Opcode::Aaload, ix)),
    0x33 => Some((Opcode::Baload, ix)),
    0x34 => Some((Opcode::Caload, ix)),
    0x35 => Some((Opcode::Saload, ix)),
    0x36 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Istore(x as u16), ix)), None => None },
    0x37 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Lstore(x as u16), ix)), None => None },
    0x38 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Fstore(x as u16), ix)), None => None },
    0x39 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Dstore(x as u16), ix)), None => None },
    0x3a => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Astore(x as u16), ix)), None => None },
    0x3b => Some((Opcode::Istore(0), ix)),
    0x3c => Some((Opcode::Istore(1), ix)),
    0x3d => Some((Opcode::Istore(2), ix)),
    0x3e => Some((Opcode::Istore(3), ix)),
    0x3f => Some((Opcode::Lstore(0), ix)),
    0x40 => Some((Opcode::Lstore(1), ix)),
    0x41 => Some((Opcode::Lstore(2), ix)),
    0x42 => Some((Opcode::Lstore(3), ix)),
    0x43 => Some((Opcode::Fstore(0), ix)),
    0x44 => Some((Opcode::Fstore(1), ix)),
    0x45 => Some((Opcode::Fstore(2), ix)),
    0x46 => Some((Opcode::Fstore(3), ix)),
    0x47 => Some((Opcode::Dstore(0), ix)),
    0x48 => Some((Opcode::Dstore(1), ix)),
    0x49 => Some((Opcode::Dstore(2), ix)),
    0x4a => Some((Opcode::Dstore(3), ix)),
    0x4b => Some((Opcode::Astore(0), ix)),
    0x4c => Some((Opcode::Astore(1), ix)),
    0x4d => Some((Opcode::Astore(2), ix)),
    0x4e => Some((Opcode::Astore(3), ix)),
    0x4f => Some((Opcode::Iastore, ix)),
    0x50 => Some((Opcode::Lastore, ix)),
    0x51 => Some((Opcode::Fastore, ix)),
    0x52 => Some((Opcode::Dastore, ix)),
    0x53 => Some((Opcode::Aastore, ix)),
    0x54 => Some((Opcode::Bastore, ix)),
    0x55 => Some((Opcode::Castore, ix)),
    0x56 => Some((Opcode::Sastore, ix)),
    0x57 => Some((Opcode::Pop, ix)),
    0x58 => Some((Opcode::Pop2, ix)),
    0x59 => Some((Opcode::Dup, ix)),
    0x5a => Some((Opcode::DupX1, ix)),
    0x5b => Some((Opcode::DupX2, ix)),
    0x5c => Some((Opcode::Dup2, ix)),
    0x5d => Some((Opcode::Dup2X1, ix)),
    0x5e => Some((Opcode::Dup2X2, ix)),
    0x5f => Some((Opcode::Swap, ix)),
    0x60 => Some((Opcode::Iadd, ix)),
    0x61 => Some((Opcode::Ladd, ix)),
    0x62 => Some((Opcode::Fadd, ix)),
    0x63 => Some((Opcode::Dadd, ix)),
    0x64 => Some((Opcode::Isub, ix)),
    0x65 => Some((Opcode::Lsub, ix)),
    0x66 => Some((Opcode::Fsub, ix)),
    0x67 => Some((Opcode::Dsub, ix)),
    0x68 => Some((Opcode::Imul, ix)),
    0x69 => Some((Opcode::Lmul, ix)),
    0x6a => Some((Opcode::Fmul, ix)),
    0x6b => Some((Opcode::Dmul, ix)),
    0x6c => Some((Opcode::Idiv, ix)),
    0x6d => Some((Opcode::Ldiv, ix)),
    0x6e => Some((Opcode::Fdiv, ix)),
    0x6f => Some((Opcode::Ddiv, ix)),
    0x70 => Some((Opcode::Irem, ix)),
    0x71 => Some((Opcode::Lrem, ix)),
    0x72 => Some((Opcode::Frem, ix)),
    0x73 => Some((Opcode::Drem, ix)),
    0x74 => Some((Opcode::Ineg, ix)),
    0x75 => Some((Opcode::Lneg, ix)),
    0x76 => Some((Opcode::Fneg, ix)),
    0x77 => Some((Opcode::Dneg, ix)),
    0x78 => Some((Opcode::Ishl, ix)),
    0x79 => Some((Opcode::Lshl, ix)),
    0x7a => Some((Opcode::Ishr, ix)),
    0x7b => Some((Opcode::Lshr, ix)),
    0x7c => Some((Opcode::Iushr, ix)),
    0x7d => Some((Opcode::Lushr, ix)),
    0x7e => Some((Opcode::Iand, ix)),
    0x7f => Some((Opcode::Land, ix)),
    0x80 => Some((Opcode::Ior, ix)),
    0x81 => Some((Opcode::Lor, ix)),
    0x82 => Some((Opcode::Ixor, ix)),
    0x83 => Some((Opcode::Lxor, ix)),
    0x84 => s_iinc(b, ix),
    0x85 => Some((Opcode::I2l, ix)),
    0x86 => Some((Opcode::I2f, ix)),
    0x87 => Some((Opcode::I2d, ix)),
    0x88 => Some((Opcode::L2i, ix)),
    0x89 => Some((Opcode::L2f, ix)),
    0x8a => Some((Opcode::L2d, ix)),
    0x8b => Some((Opcode::F2i, ix)),
    0x8c => Some((Opcode::F2l, ix)),
    0x8d => Some((Opcode::F2d, ix)),
    0x8e => Some((Opcode::D2i, ix)),
    0x8f => Some((Opcode::D2l, ix)),
    0x90 => Some((Opcode::D2f, ix)),
    0x91 => Some((Opcode::I2b, ix)),
    0x92 => Some((Opcode::I2c, ix)),
    0x93 => Some((Opcode::I2s, ix)),
    0x94 => Some((Opcode::Lcmp, ix)),
    0x95 => Some((Opcode::Fcmpl, ix)),
    0x96 => Some((Opcode::Fcmpg, ix)),
    0x97 => Some((Opcode::Dcmpl, ix)),
    0x98 => Some((Opcode::Dcmpg, ix)),
    0x99 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Ifeq((x as i16) as i32), ix)), None => None },
    0x9a => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Ifne((x as i16) as i32), ix)), None => None },
    0x9b => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Iflt((x as i16) as i32), ix)), None => None },
    0x9c => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Ifge((x as i16) as i32), ix)), None => None },
    0x9d => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Ifgt((x as i16) as i32), ix)), None => None },
    0x9e => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Ifle((x as i16) as i32), ix)), None => None },
    0x9f => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::IfIcmpeq((x as i16) as i32), ix)), None => None },
    0xa0 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::IfIcmpne((x as i16) as i32), ix)), None => None },
    0xa1 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::IfIcmplt((x as i16) as i32), ix)), None => None },
    0xa2 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::IfIcmpge((x as i16) as i32), ix)), None => None },
    0xa3 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::IfIcmpgt((x as i16) as i32), ix)), None => None },
    0xa4 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::IfIcmple((x as i16) as i32), ix)), None => None },
    0xa5 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::IfAcmpeq((x as i16) as i32), ix)), None => None },
    0xa6 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::IfAcmpne((x as i16) as i32), ix)), None => None },
    0xa7 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Goto((x as i16) as i32), ix)), None => None },
    0xa8 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Jsr((x as i16) as i32), ix)), None => None },
    0xa9 => match s_u1(b, ix) { Some((x, ix)) => Some((Opcode::Ret(x as u16), ix)), None => None },
    0xaa => s_tableswitch(b, ix),
    0xab => s_lookupswitch(b, ix),
    0xac => Some((Opcode::Ireturn, ix)),
    0xad => Some((Opcode::Lreturn, ix)),
    0xae => Some((Opcode::Freturn, ix)),
    0xaf => Some((Opcode::Dreturn, ix)),
    0xb0 => Some((Opcode::Areturn, ix)),
    0xb1 => Some((Opcode::Return, ix)),
    0xb2 => match s_cp_member(b, ix, p, true, false, false) { Some((x, ix)) => Some((Opcode::Getstatic(x), ix)), None => None },
    0xb3 => match s_cp_member(b, ix, p, true, false, false) { Some((x, ix)) => Some((Opcode::Putstatic(x), ix)), None => None },
    0xb4 => match s_cp_member(b, ix, p, true, false, false) { Some((x, ix)) => Some((Opcode::Getfield(x), ix)), None => None },
    0xb5 => match s_cp_member(b, ix, p, true, false, false) { Some((x, ix)) => Some((Opcode::Putfield(x), ix)), None => None },
    0xb6 => match s_cp_member(b, ix, p, false, true, false) { Some((x, ix)) => Some((Opcode::Invokevirtual(x), ix)), None => None },
    0xb7 => match s_cp_member(b, ix, p, false, true, true) { Some((x, ix)) => Some((Opcode::Invokespecial(x), ix)), None => None },
    0xb8 => match s_cp_member(b, ix, p, false, true, true) { Some((x, ix)) => Some((Opcode::Invokestatic(x), ix)), None => None },
    0xb9 => s_invokeinterface(b, ix, p),
    0xba => s_invokedynamic(b, ix, p),
    0xbb => match s_cp_class(b, ix, p) { Some((x, ix)) => Some((Opcode::New(x), ix)), None => None },
    0xbc => s_newarray(b, ix),
    0xbd => match s_cp_oat(b, ix, p) { Some((x, ix)) => Some((Opcode::Anewarray(x), ix)), None => None },
    0xbe => Some((Opcode::Arraylength, ix)),
    0xbf => Some((Opcode::Athrow, ix)),
    0xc0 => match s_cp_oat(b, ix, p) { Some((x, ix)) => Some((Opcode::Checkcast(x), ix)), None => None },
    0xc1 => match s_cp_oat(b, ix, p) { Some((x, ix)) => Some((Opcode::Instanceof(x), ix)), None => None },
    0xc2 => Some((Opcode::Monitorenter, ix)),
    0xc3 => Some((Opcode::Monitorexit, ix)),
    0xc4 => s_wide(b, ix),
    0xc5 => s_multianewarray(b, ix, p),
    0xc6 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Ifnull((x as i16) as i32), ix)), None => None },
    0xc7 => match s_u2(b, ix) { Some((x, ix)) => Some((Opcode::Ifnonnull((x as i16) as i32), ix)), None => None },
    0xc8 => match s_u4(b, ix) { Some((x, ix)) => Some((Opcode::Goto(x as i32), ix)), None => None },
    0xc9 => match s_u4(b, ix) { Some((x, ix)) => Some((Opcode::Jsr(x as i32), ix)), None => None },
    0xca => Some((Opcode::Breakpoint, ix)),
    0xfe => Some((Opcode::Impdep1, ix)),
    0xff => Some((Opcode::Impdep2, ix)),
    _ => None,
  }
}
/// the instructions from ix on, each with its offset, up to the end of the code
spec fn s_ops<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, acc: Seq<(usize, Opcode<'a>)>) -> Option<Seq<(usize, Opcode<'a>)>> decreases b.len() - ix {
  if ix < 0 { None } else if ix >= b.len() { Some(acc) } else {
    match s_op(b[ix], b, ix + 1, p) {
      Some((o, ix2)) => if ix < ix2 <= b.len() { s_ops(b, ix2, p, acc.push((ix as usize, o))) } else { None },
      None => None,
    }
  }
}
spec fn sorted(s: Seq<(usize, Opcode)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
/// there is an instruction at offset t
spec fn is_op_at(s: Seq<(usize, Opcode)>, t: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == t }
// ---- C10: jumps
spec fn jumps_ok(s: Seq<(usize, Opcode)>, o: int, op: Opcode) -> bool {
  match op {
    Opcode::Ifeq(j) => is_op_at(s, o + j),
    Opcode::Ifne(j) => is_op_at(s, o + j),
    Opcode::Iflt(j) => is_op_at(s, o + j),
    Opcode::Ifge(j) => is_op_at(s, o + j),
    Opcode::Ifgt(j) => is_op_at(s, o + j),
    Opcode::Ifle(j) => is_op_at(s, o + j),
    Opcode::IfIcmpeq(j) => is_op_at(s, o + j),
    Opcode::IfIcmpne(j) => is_op_at(s, o + j),
    Opcode::IfIcmplt(j) => is_op_at(s, o + j),
    Opcode::IfIcmpge(j) => is_op_at(s, o + j),
    Opcode::IfIcmpgt(j) => is_op_at(s, o + j),
    Opcode::IfIcmple(j) => is_op_at(s, o + j),
    Opcode::IfAcmpeq(j) => is_op_at(s, o + j),
    Opcode::IfAcmpne(j) => is_op_at(s, o + j),
    Opcode::Goto(j) => is_op_at(s, o + j),
    Opcode::Jsr(j) => is_op_at(s, o + j),
    Opcode::Ifnull(j) => is_op_at(s, o + j),
    Opcode::Ifnonnull(j) => is_op_at(s, o + j),
    Opcode::Tableswitch(t) => is_op_at(s, o + t.default) && forall|k: int| 0 <= k < t.jumps@.len() ==> is_op_at(s, o + #[trigger] t.jumps@[k]),
    Opcode::Lookupswitch(t) => is_op_at(s, o + t.default) && forall|k: int| 0 <= k < t.match_offsets@.len() ==> is_op_at(s, o + (#[trigger] t.match_offsets@[k]).1),
    _ => true,
  }
}
spec fn all_jumps_ok(s: Seq<(usize, Opcode)>) -> bool { forall|i: int| 0 <= i < s.len() ==> jumps_ok(s, (#[trigger] s[i]).0 as int, s[i].1) }
/// offsets are those of a method body
spec fn small(s: Seq<(usize, Opcode)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 <= i32::MAX }
spec fn s_code<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>) -> Option<ByteCode<'a>> {
  let ops = s_ops(b, 0, p, Seq::empty())?;
  require small(ops) && all_jumps_ok(ops);
  Some(ByteCode { opcodes: vec_of(ops) })
}
proof fn lemma_jumps(b: Seq<u8>, ix: int, n: int, acc: Seq<i32>)
  requires 0 <= ix <= b.len(), 0 <= n
  ensures match s_jumps(b, ix, n, acc) { Some((a, ix2)) => ix2 == ix + 4 * n && ix2 <= b.len() && a.len() == acc.len() + n, None => ix + 4 * n > b.len() }
  decreases n
{ if n > 0 { match s_i32s_at(b, ix) { Some((v, ix2)) => lemma_jumps(b, ix2, n - 1, acc.push(v)), None => {} } } }
proof fn lemma_pairs(b: Seq<u8>, ix: int, n: int, acc: Seq<(i32, i32)>)
  requires 0 <= ix <= b.len(), 0 <= n
  ensures match s_pairs(b, ix, n, acc) { Some((a, ix2)) => ix2 == ix + 8 * n && ix2 <= b.len() && a.len() == acc.len() + n, None => ix + 8 * n > b.len() }
  decreases n
{ if n > 0 { match s_pair(b, ix) { Some((v, ix2)) => lemma_pairs(b, ix2, n - 1, acc.push(v)), None => {} } } }
proof fn lemma_align4(ix: usize) requires ix <= 0x7fff_ffff_ffff_ffff ensures ((ix + 3) as usize & !0x3usize) as int == align4(ix as int), ix <= align4(ix as int) <= ix + 3
{ let y = (ix + 3) as usize; assert(y & !0x3usize == y - y % 4) by (bit_vector); }
proof fn lemma_member_flags() ensures
  0x100u32 & 0x100 == 0x100, 0x100u32 & 0x200 != 0x200, 0x100u32 & 0x400 != 0x400,
  0x200u32 & 0x200 == 0x200, 0x200u32 & 0x100 != 0x100, 0x200u32 & 0x400 != 0x400,
  0x400u32 & 0x400 == 0x400, 0x400u32 & 0x100 != 0x100, 0x400u32 & 0x200 != 0x200,
  0x600u32 & 0x200 == 0x200, 0x600u32 & 0x400 == 0x400, 0x600u32 & 0x100 != 0x100,
{
  assert(0x100u32 & 0x100 == 0x100 && 0x100u32 & 0x200 != 0x200 && 0x100u32 & 0x400 != 0x400
   && 0x200u32 & 0x200 == 0x200 && 0x200u32 & 0x100 != 0x100 && 0x200u32 & 0x400 != 0x400
   && 0x400u32 & 0x400 == 0x400 && 0x400u32 & 0x100 != 0x100 && 0x400u32 & 0x200 != 0x200
   && 0x600u32 & 0x200 == 0x200 && 0x600u32 & 0x400 == 0x400 && 0x600u32 & 0x100 != 0x100) by (bit_vector);
}
/// a switch table is there exactly when the code has room for it
spec fn tab_facts(b: Seq<u8>, i: int, lo: u32, hi: u32) -> bool {
  lo as i32 <= hi as i32 ==> ({ let n = (hi as i32) as int - (lo as i32) as int + 1; s_jumps(b, i, n, Seq::empty()) is None <==> i + 4 * n > b.len() })
}
spec fn look_facts(b: Seq<u8>, i: int, n: u32) -> bool {
  0 <= n as i32 ==> (s_pairs(b, i, (n as i32) as int, Seq::empty()) is None <==> i + 8 * (n as i32) > b.len())
}
proof fn lemma_switches(b: Seq<u8>, ix: int)
  requires 0 <= ix <= b.len()
  ensures ({ let a = align4(ix); a + 12 <= b.len() ==> tab_facts(b, a + 12, be4(b, a + 4), be4(b, a + 8)) }),
    ({ let a = align4(ix); a + 8 <= b.len() ==> look_facts(b, a + 8, be4(b, a + 4)) }),
{
  let a = align4(ix);
  if a + 12 <= b.len() { let lo = be4(b, a + 4) as i32; let hi = be4(b, a + 8) as i32; if lo <= hi { lemma_jumps(b, a + 12, hi - lo + 1, Seq::empty()); } }
  if a + 8 <= b.len() { let n = be4(b, a + 4) as i32; if n >= 0 { lemma_pairs(b, a + 8, n as int, Seq::empty()); } }
}
proof fn lemma_op(t: u8, b: Seq<u8>, ix: int, p: Seq<FEntry>)
  requires 0 <= ix <= b.len()
  ensures match s_op(t, b, ix, p) { Some((o, ix2)) => ix <= ix2 <= b.len(), None => true }
{
  hide(f_loadable);
  if t == 0xaa { match s_u4(b, align4(ix)) { Some((d, i1)) => match s_u4(b, i1) { Some((lo, i2)) => match s_u4(b, i2) { Some((hi, i3)) => if lo as i32 <= hi as i32 { lemma_jumps(b, i3, (hi as i32) as int - (lo as i32) as int + 1, Seq::empty()); }, None => {} }, None => {} }, None => {} } }
  if t == 0xab { match s_u4(b, align4(ix)) { Some((d, i1)) => match s_u4(b, i1) { Some((n, i2)) => if 0 <= n as i32 { lemma_pairs(b, i2, (n as i32) as int, Seq::empty()); }, None => {} }, None => {} } }
}
/// the offsets are increasing and below ix
spec fn offs_ok(s: Seq<(usize, Opcode)>, ix: int) -> bool { sorted(s) && forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 < ix }
proof fn lemma_ops_none<'a>(b: Seq<u8>, ix: int, p: Seq<FEntry<'a>>, acc: Seq<(usize, Opcode<'a>)>)
  requires 0 <= ix < b.len()
  ensures s_op(b[ix], b, ix + 1, p) is None ==> s_ops(b, ix, p, acc) is None,
{ hide(s_op); }
proof fn lemma_ops_push<'a>(b: Seq<u8>, ix: usize, p: Seq<FEntry<'a>>, acc: Seq<(usize, Opcode<'a>)>, o: Opcode<'a>, ix2: int)
  requires 0 <= ix < b.len() <= 0x7fff_ffff_ffff_ffff, offs_ok(acc, ix as int), s_op(b[ix as int], b, ix + 1, p) == Some((o, ix2)),
  ensures ix < ix2 <= b.len(), s_ops(b, ix as int, p, acc) == s_ops(b, ix2, p, acc.push((ix, o))), offs_ok(acc.push((ix, o)), ix2),
{ hide(s_op); lemma_op(b[ix as int], b, ix + 1, p); }
proof fn lemma_ops_end<'a>(b: Seq<u8>, p: Seq<FEntry<'a>>, acc: Seq<(usize, Opcode<'a>)>)
  ensures s_ops(b, b.len() as int, p, acc) == Some(acc)
{ }
