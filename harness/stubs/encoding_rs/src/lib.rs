//! Stand-in for the transcoder: the checks never build a string in the one
//! encoding (ISO-2022-JP) whose classification needs it.

pub struct Encoding;

impl Encoding {
    pub fn for_label(_: &[u8]) -> Option<&'static Encoding> {
        Some(&Encoding)
    }
    pub fn decode_without_bom_handling<'a>(&'static self, b: &'a [u8]) -> (std::borrow::Cow<'a, str>, bool) {
        (String::from_utf8_lossy(b), std::str::from_utf8(b).is_err())
    }
}
