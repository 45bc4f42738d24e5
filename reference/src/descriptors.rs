use std::{
    borrow::Cow,
    convert::TryFrom,
    fmt::{self, Write},
    ops::Deref,
};

use crate::ParseError;

// Returns the unqualified segment and the following char ('/', ';', or None)
// or an error. This only extracts the unqualified segment at the start of
// the given data, and ignores anything following.
fn parse_unqualified_segment(data: &str) -> Result<(&str, Option<char>), ParseError> {
    for (ix, c) in data.char_indices() {
        match c {
            '/' if ix == 0 => fail!("Unexpected '/' at start of unqualified segment"),
            ';' if ix == 0 => fail!("Unexpected ';' at start of unqualified segment"),
            '/' | ';' => return Ok((&data[0..ix], Some(c))),
            '.' | '[' | '<' | '>' => fail!("Disallowed character in unqualified segment"),
            _ => (),
        };
    }
    Ok((data, None))
}

/// Represents a valid binary class or interface name in the syntax of
/// the [JVM Spec](https://docs.oracle.com/javase/specs/jvms/se21/html/jvms-4.html#jvms-4.2.1).
#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct ClassName<'a>(Cow<'a, str>);

impl<'a> TryFrom<Cow<'a, str>> for ClassName<'a> {
    type Error = ParseError;

    // `value` (as a whole) must consist of a sequence of unqualified segements
    fn try_from(value: Cow<'a, str>) -> Result<Self, Self::Error> {
        let mut index = 0;
        loop {
            match parse_unqualified_segment(&value[index..])? {
                (segment, None) if segment.is_empty() => {
                    fail!("Unexpected empty unqualified segment in class name")
                }
                (_, None) => break,
                (_, Some(';')) => fail!("Disallowed ';' in class name"),
                (segment, Some('/')) => index += segment.len() + 1,
                _ => panic!("Got unexpected return value from parse_unqualified_segment"),
            }
        }
        Ok(Self(value))
    }
}

impl<'a> From<ClassName<'a>> for Cow<'a, str> {
    fn from(value: ClassName<'a>) -> Self {
        value.0
    }
}

impl<'a> Deref for ClassName<'a> {
    type Target = str;

    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

impl<'a> ClassName<'a> {
    fn byte_len(&self) -> usize {
        self.0.len()
    }
}

impl<'a> fmt::Display for ClassName<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> Result<(), fmt::Error> {
        write!(f, "{}", self.0)
    }
}

// Returns the classname descriptor at the start of the given data, and ignores anything following.
// Returns an error if there was no such classname.
fn parse_class_descriptor<'a>(
    data: &Cow<'a, str>,
    index: usize,
) -> Result<ClassName<'a>, ParseError> {
    let mut next_index = index;
    loop {
        match parse_unqualified_segment(&data[next_index..])? {
            (segment, Some(';')) => {
                return Ok(ClassName(match data {
                    Cow::Borrowed(data) => {
                        Cow::Borrowed(&data[index..(next_index + segment.len())])
                    }
                    Cow::Owned(data) => {
                        Cow::Owned(data[index..(next_index + segment.len())].to_string())
                    }
                }))
            }
            (segment, Some('/')) => next_index += segment.len() + 1,
            (_, None) => fail!("Unterminated unqualified segment"),
            _ => panic!("Got unexpected return value from parse_unqualified_segment"),
        }
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum FieldType<'a> {
    Byte,
    Char,
    Double,
    Float,
    Integer,
    Long,
    Short,
    Boolean,
    Object(ClassName<'a>),
}

impl FieldType<'_> {
    fn byte_len(&self) -> usize {
        match self {
            // +1 for the beginning 'L'; +1 for the terminating ';'
            FieldType::Object(class_name) => 2 + class_name.byte_len(),
            _ => 1,
        }
    }
}

impl fmt::Display for FieldType<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> Result<(), fmt::Error> {
        match self {
            Self::Byte => write!(f, "B"),
            Self::Char => write!(f, "C"),
            Self::Double => write!(f, "D"),
            Self::Float => write!(f, "F"),
            Self::Integer => write!(f, "I"),
            Self::Long => write!(f, "J"),
            Self::Short => write!(f, "S"),
            Self::Boolean => write!(f, "Z"),
            Self::Object(obj) => write!(f, "L{};", obj),
        }
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct FieldDescriptor<'a> {
    /// Non-zero for array types denoting the arrays dimensions, otherwise `0`.
    pub dimensions: u8,
    pub field_type: FieldType<'a>,
}

impl FieldDescriptor<'_> {
    fn byte_len(&self) -> usize {
        (self.dimensions as usize) + self.field_type.byte_len()
    }
}

impl fmt::Display for FieldDescriptor<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> Result<(), fmt::Error> {
        write!(
            f,
            "{}{}",
            "[".repeat(self.dimensions as usize),
            self.field_type
        )
    }
}

// Parse the field descriptor at the start of the given data, and ignores anything
// following. Returns an error if the data don't start with a field descriptor.
pub(crate) fn parse_field_descriptor<'a>(
    data: &Cow<'a, str>,
    index: usize,
) -> Result<FieldDescriptor<'a>, ParseError> {
    let mut dimensions: usize = 0;
    for c in data[index..].chars() {
        if c == '[' {
            dimensions += 1;
            if dimensions > 255 {
                fail!("Dimensions in field descriptor exceeded allowed limit");
            }
            continue;
        }
        let field_type = match c {
            'B' => FieldType::Byte,
            'C' => FieldType::Char,
            'D' => FieldType::Double,
            'F' => FieldType::Float,
            'I' => FieldType::Integer,
            'J' => FieldType::Long,
            'S' => FieldType::Short,
            'Z' => FieldType::Boolean,
            'L' => FieldType::Object(parse_class_descriptor(data, index + dimensions + 1)?),
            _ => fail!("Unexpected field type"),
        };
        return Ok(FieldDescriptor {
            dimensions: dimensions as u8,
            field_type,
        });
    }
    fail!("Empty string is not a field descriptor");
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub enum ReturnDescriptor<'a> {
    Return(FieldDescriptor<'a>),
    Void,
}
impl fmt::Display for ReturnDescriptor<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> Result<(), fmt::Error> {
        match self {
            Self::Void => f.write_char('V'),
            Self::Return(field) => write!(f, "{}", field),
        }
    }
}

impl ReturnDescriptor<'_> {
    fn byte_len(&self) -> usize {
        match self {
            Self::Return(d) => d.byte_len(),
            Self::Void => 1,
        }
    }
}

fn parse_return_descriptor<'a>(
    data: &Cow<'a, str>,
    index: usize,
) -> Result<ReturnDescriptor<'a>, ParseError> {
    if &data[index..] == "V" {
        Ok(ReturnDescriptor::Void)
    } else {
        Ok(ReturnDescriptor::Return(parse_field_descriptor(
            data, index,
        )?))
    }
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct MethodDescriptor<'a> {
    pub parameters: Vec<FieldDescriptor<'a>>,
    pub return_type: ReturnDescriptor<'a>,
}

impl fmt::Display for MethodDescriptor<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> Result<(), fmt::Error> {
        f.write_char('(')?;

        for param in &self.parameters {
            write!(f, "{}", param)?;
        }

        write!(f, "){}", self.return_type)
    }
}

impl MethodDescriptor<'_> {
    fn byte_len(&self) -> usize {
        1 + self
            .parameters
            .iter()
            .fold(0, |sum, param| sum + param.byte_len())
            + 1
            + self.return_type.byte_len()
    }
}

pub(crate) fn parse_method_descriptor<'a>(
    data: &Cow<'a, str>,
    mut index: usize,
) -> Result<MethodDescriptor<'a>, ParseError> {
    let bytes = data.as_bytes();
    if bytes.len() <= index || bytes[index] != b'(' {
        fail!("Method descriptor must start with '('")
    }
    index += 1;
    let mut parameters = vec![];
    loop {
        if bytes.len() > index && bytes[index] == b')' {
            break;
        }
        let parameter = parse_field_descriptor(data, index)?;
        index += parameter.byte_len();
        parameters.push(parameter);
    }
    index += 1;
    let return_type = parse_return_descriptor(data, index)?;
    Ok(MethodDescriptor {
        parameters,
        return_type,
    })
}

// Parse the given data as a field descriptor, with nothing following.
pub(crate) fn parse_entire_field_descriptor<'a>(
    data: &Cow<'a, str>,
) -> Result<FieldDescriptor<'a>, ParseError> {
    let desc = parse_field_descriptor(data, 0)?;
    if data.len() != desc.byte_len() {
        fail!("Unexpected data after field descriptor")
    }
    Ok(desc)
}

// Parse the given data as a method descriptor, with nothing following.
pub(crate) fn parse_entire_method_descriptor<'a>(
    data: &Cow<'a, str>,
) -> Result<MethodDescriptor<'a>, ParseError> {
    let desc = parse_method_descriptor(data, 0)?;
    if data.len() != desc.byte_len() {
        fail!("Unexpected data after method descriptor")
    }
    Ok(desc)
}

pub(crate) fn parse_array_descriptor<'a>(
    data: &Cow<'a, str>,
) -> Result<Option<FieldDescriptor<'a>>, ParseError> {
    if data.is_empty() || data.as_bytes()[0] != b'[' {
        return Ok(None);
    }
    let desc = parse_field_descriptor(data, 0)?;
    if data.len() != desc.byte_len() {
        fail!("Not a field descriptor")
    }
    Ok(Some(desc))
}

pub(crate) fn is_field_descriptor(name: &str) -> bool {
    match parse_field_descriptor(&Cow::Borrowed(name), 0) {
        Ok(desc) => name.len() == desc.byte_len(),
        Err(_) => false,
    }
}

pub(crate) fn is_array_descriptor(name: &str) -> bool {
    is_field_descriptor(name) && name.as_bytes()[0] == b'['
}

pub(crate) fn is_method_descriptor(name: &str) -> bool {
    match parse_method_descriptor(&Cow::Borrowed(name), 0) {
        Ok(desc) => name.len() == desc.byte_len(),
        Err(_) => false,
    }
}

pub(crate) fn is_return_descriptor(name: &str) -> bool {
    match parse_return_descriptor(&Cow::Borrowed(name), 0) {
        Ok(desc) => name.len() == desc.byte_len(),
        Err(_) => false,
    }
}

