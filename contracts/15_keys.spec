// Identity of the values collected in duplicate checks: derived Eq/Hash compare contents.
pub open spec fn cn_key(c: ClassName) -> Seq<char> { cv(c.0) }
pub open spec fn fd_key(d: FieldDescriptor) -> (u8, int, Seq<char>) {
  match d.field_type {
    FieldType::Byte => (d.dimensions, 0, Seq::empty()), FieldType::Char => (d.dimensions, 1, Seq::empty()),
    FieldType::Double => (d.dimensions, 2, Seq::empty()), FieldType::Float => (d.dimensions, 3, Seq::empty()),
    FieldType::Integer => (d.dimensions, 4, Seq::empty()), FieldType::Long => (d.dimensions, 5, Seq::empty()),
    FieldType::Short => (d.dimensions, 6, Seq::empty()), FieldType::Boolean => (d.dimensions, 7, Seq::empty()),
    FieldType::Object(c) => (d.dimensions, 8, cn_key(c)),
  }
}
pub open spec fn rd_key(d: ReturnDescriptor) -> Option<(u8, int, Seq<char>)> { match d { ReturnDescriptor::Void => None, ReturnDescriptor::Return(f) => Some(fd_key(f)) } }
pub open spec fn md_key(d: MethodDescriptor) -> (Seq<(u8, int, Seq<char>)>, Option<(u8, int, Seq<char>)>) {
  (d.parameters@.map_values(|p: FieldDescriptor| fd_key(p)), rd_key(d.return_type))
}
impl<'a, 'b> shim::Key for (Cow<'a, str>, FieldDescriptor<'b>) {
  type K = (Seq<char>, (u8, int, Seq<char>));
  open spec fn key(&self) -> Self::K { (cv(self.0), fd_key(self.1)) }
}
impl<'a, 'b> shim::Key for (Cow<'a, str>, MethodDescriptor<'b>) {
  type K = (Seq<char>, (Seq<(u8, int, Seq<char>)>, Option<(u8, int, Seq<char>)>));
  open spec fn key(&self) -> Self::K { (cv(self.0), md_key(self.1)) }
}
