//! PDUs a user of the library defines with define_pdu!, as Layouts.tla (UserPdus) describes them.
#![allow(dead_code)]
use crate::val::Octs;
use bytes::{Buf, BufMut, BytesMut};
use open_dis_rust::common::data_types::{
    EntityType, WorldCoordinate, entity_id::EntityId, entity_marking::EntityMarking,
    datum_records::VariableDatumRecord,
};
use open_dis_rust::common::enums::{AcknowledgeFlag, ForceId, PduType, ProtocolFamily, Reason, VariableRecordTypes};
use open_dis_rust::common::{DISError, GenericHeader, Pdu, PduHeader, SerializedLength};
use open_dis_rust::define_pdu;
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize, read_list};

// ---- parts
/// A part with a list of its own.
#[derive(Debug, Default)]
pub struct UserPart {
    pub tag: u8,
    pub number_of_marks: u16,
    pub marks: Vec<u32>,
    pub place: WorldCoordinate,
}
impl FieldSerialize for UserPart {
    fn serialize_field(&self, buf: &mut BytesMut) {
        self.tag.serialize_field(buf);
        self.number_of_marks.serialize_field(buf);
        self.marks.serialize_field(buf);
        FieldSerialize::serialize_field(&self.place, buf);
    }
}
impl FieldDeserialize for UserPart {
    fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
        let tag = u8::deserialize_field(buf);
        let number_of_marks = u16::deserialize_field(buf);
        let marks = read_list(buf, usize::from(number_of_marks));
        Self { tag, number_of_marks, marks, place: FieldDeserialize::deserialize_field(buf) }
    }
}
impl FieldLen for UserPart {
    fn field_len(&self) -> usize {
        self.tag.field_len() + self.number_of_marks.field_len() + self.marks.field_len() + self.place.field_len()
    }
}

#[derive(Debug, Default)]
pub struct UserCounts {
    pub rows: u8,
    pub columns: u8,
    pub extra: u32,
}
impl FieldSerialize for UserCounts {
    fn serialize_field(&self, buf: &mut BytesMut) {
        buf.put_u8(self.rows);
        buf.put_u8(self.columns);
        buf.put_u32(self.extra);
    }
}
impl FieldDeserialize for UserCounts {
    fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
        Self { rows: buf.get_u8(), columns: buf.get_u8(), extra: buf.get_u32() }
    }
}
impl FieldLen for UserCounts {
    fn field_len(&self) -> usize { 6 }
}

/// A part that reads in all the ways a buffer can be read.
#[derive(Debug, Default)]
pub struct UserOdd {
    pub three: [u8; 3],
    pub swapped: [u8; 2],
    pub swapped_four: [u8; 4],
    pub swapped_eight: [u8; 8],
    pub sixteen: [u8; 16],
    pub copied: [u8; 5],
    pub number: u8,
    pub signed: [u8; 6],
}
impl FieldSerialize for UserOdd {
    fn serialize_field(&self, buf: &mut BytesMut) {
        for o in [&self.three[..], &self.swapped, &self.swapped_four, &self.swapped_eight, &self.sixteen, &self.copied, &[self.number], &self.signed] {
            buf.put_slice(o);
        }
    }
}
impl FieldDeserialize for UserOdd {
    fn deserialize_field<B: Buf>(buf: &mut B) -> Self {
        let last = |n: u64| -> [u8; 8] { n.to_be_bytes() };
        let three = last(buf.get_uint(3))[5..].try_into().unwrap();
        let swapped = buf.get_u16_le().to_le_bytes();
        let swapped_four = buf.get_i32_le().to_le_bytes();
        let swapped_eight = buf.get_u64_le().to_le_bytes();
        let sixteen = buf.get_u128().to_be_bytes();
        // copy_to_bytes hands out what it is asked for
        let copied = buf.copy_to_bytes(5)[..].try_into().unwrap();
        let number = buf.get_u8();
        let signed = buf.get_int(6).to_be_bytes()[2..].try_into().unwrap();
        Self { three, swapped, swapped_four, swapped_eight, sixteen, copied, number, signed }
    }
}
impl FieldLen for UserOdd {
    fn field_len(&self) -> usize { 3 + 2 + 4 + 8 + 16 + 5 + 1 + 6 }
}

/// A block whose length stands elsewhere.
#[derive(Debug, Default)]
pub struct UserBlob { octets: Vec<u8> }
impl FieldSerialize for UserBlob {
    fn serialize_field(&self, buf: &mut BytesMut) { buf.put_slice(&self.octets) }
}
impl FieldDeserialize for UserBlob {
    fn deserialize_field<B: Buf>(_: &mut B) -> Self { Self::default() }
}
impl FieldDeserializeWithLen for UserBlob {
    fn deserialize_with_len<B: Buf>(buf: &mut B, len: usize) -> Self {
        Self { octets: read_list(buf, len) }
    }
}
impl FieldLen for UserBlob {
    fn field_len(&self) -> usize { self.octets.len() }
}

#[derive(Debug, Default)]
pub struct UserText { text: Vec<u8> }
/// (what is a text is written as the library writes a String)
impl FieldSerialize for UserText {
    fn serialize_field(&self, buf: &mut BytesMut) {
        match String::from_utf8(self.text.clone()) { Ok(t) => t.serialize_field(buf), Err(_) => self.text.serialize_field(buf) }
    }
}
impl FieldDeserializeWithLen for UserText {
    fn deserialize_with_len<B: Buf>(buf: &mut B, len: usize) -> Self {
        let mut text = vec![0; len.min(buf.remaining())];
        buf.copy_to_slice(&mut text);
        if text.len() < len { buf.advance(len - text.len()) }
        Self { text }
    }
}
impl FieldLen for UserText {
    fn field_len(&self) -> usize { String::from_utf8(self.text.clone()).map_or(self.text.len(), |t| t.field_len()) }
}
impl Octs for UserText {
    fn from_octs(o: &[u8]) -> Self { Self { text: o.to_vec() } }
    fn to_octs(&self) -> Vec<u8> { self.text.clone() }
}

// ---- PDUs
define_pdu! {
    #[derive(Debug)]
    pub struct UserScalarsPdu {
        header: PduHeader,
        pdu_type: PduType::TimeSpacePositionInformation,
        protocol_family: ProtocolFamily::LiveEntityInformationInteraction,
        fields: {
            pub a: u8,
            pub b: i8,
            pub c: u16,
            pub d: i16,
            padding: u16,
            pub e: u32,
            pub f: i32,
            pub g: u64,
            pub h: i64,
            pub x: f32,
            pub y: f64,
            padding2: u8,
            pub force: ForceId,
            pub reason: Reason,
            pub flag: AcknowledgeFlag,
            pub sort: VariableRecordTypes,
            pub who: EntityId,
            pub kind: EntityType,
            pub counts: UserCounts,
            pub at: WorldCoordinate,
            pub mark: EntityMarking,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub(crate) struct UserListsPdu {
        header: PduHeader,
        pdu_type: PduType::Appearance,
        protocol_family: ProtocolFamily::NonRealTime,
        fields: {
            pub n8: u8,
            #[count = n8]
            pub halves: Vec<u16>,
            pub n16: u16,
            pub n32: u32,
            #[count = n16]
            pub floats: Vec<f64>,
            #[count = n32]
            pub parts: Vec<UserPart>,
            pub counts: UserCounts,
            #[count = counts.rows]
            pub ids: Vec<EntityId>,
            #[count = counts.columns]
            pub forces: Vec<ForceId>,
            pub n64: u64,
            #[count = n64]
            pub flags: Vec<AcknowledgeFlag>,
            pub bits: u16,
            #[count = usize::from(bits).div_ceil(8)]
            pub samples: Vec<u8>,
            pub eighths: u32,
            #[count = eighths / 8]
            pub shorts: Vec<i16>,
            pub across: u8,
            pub down: u8,
            #[count = u32::from(across) * u32::from(down)]
            pub grid: Vec<u8>,
            pub last: u8,
            #[count = last]
            pub datums: Vec<VariableDatumRecord>,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct UserBlocksPdu {
        header: PduHeader,
        pdu_type: PduType::ArticulatedParts,
        protocol_family: ProtocolFamily::Other,
        fields: {
            pub small_length: u8,
            pub wide_length: u16,
            pub between: EntityId,
            #[len = small_length]
            pub small: Option<UserBlob>,
            pub after: u32,
            pub long_length: u32,
            pub number: u8,
            #[count = number]
            pub marks: Vec<u16>,
            #[len = wide_length]
            pub wide: Option<UserBlob>,
            #[len = long_length]
            pub long: Option<UserBlob>,
            pub plain_length: u16,
            #[len = plain_length]
            pub plain: UserText,
            pub end: u16,
        }
    }
}
define_pdu! {
    /// Nothing behind the header
    pub struct UserEmptyPdu {
        header: PduHeader,
        pdu_type: PduType::LiveEntityFire,
        protocol_family: ProtocolFamily::EntityInformation,
        fields: {}
    }
}
define_pdu! {
    /// Names the macro uses itself
    pub struct UserOnePdu {
        header: PduHeader,
        pdu_type: PduType::LiveEntityDetonation,
        protocol_family: ProtocolFamily::InformationOperations,
        fields: {
            pub buf: u8,
            pub len: u16,
            #[count = buf]
            pub parts: Vec<UserPart>,
            #[count = len]
            pub odd: Vec<UserOdd>,
            pub body: u32,
        }
    }
}

// ---- headers of the application's own (Layouts.tla, UserHeads)
macro_rules! head {
    ($h:ident, $n:expr) => {
        impl SerializedLength for $h { const LENGTH: usize = $n; }
        impl FieldSerialize for $h { fn serialize_field(&self, buf: &mut BytesMut) { GenericHeader::serialize(self, buf) } }
        impl FieldDeserialize for $h { fn deserialize_field<B: Buf>(buf: &mut B) -> Self { <Self as GenericHeader>::deserialize(buf) } }
        impl FieldLen for $h { fn field_len(&self) -> usize { Self::LENGTH } }
    };
}
#[derive(Debug, Default)]
pub struct UserWideHead {
    pub magic: u32,
    pub protocol_family: ProtocolFamily,
    pub pdu_type: PduType,
    pub exercise: i16,
    pub length: u16,
    pub sent: f64,
}
head!(UserWideHead, 20);
impl GenericHeader for UserWideHead {
    fn pdu_type(&self) -> PduType { self.pdu_type }
    fn set_pdu_type(&mut self, value: PduType) { self.pdu_type = value }
    fn protocol_family(&self) -> ProtocolFamily { self.protocol_family }
    fn set_protocol_family(&mut self, value: ProtocolFamily) { self.protocol_family = value }
    fn length(&self) -> u16 { self.length }
    fn set_length(&mut self, value: u16) { self.length = value }
    fn serialize(&self, buf: &mut BytesMut) {
        buf.put_u32(self.magic);
        buf.put_u8(self.protocol_family as u8);
        buf.put_u8(self.pdu_type as u8);
        buf.put_u16(0);
        buf.put_i16(self.exercise);
        buf.put_u16(self.length);
        buf.put_f64(self.sent);
    }
    fn deserialize<B: Buf>(buf: &mut B) -> Self {
        let magic = buf.get_u32();
        let protocol_family = ProtocolFamily::deserialize(buf);
        let pdu_type = PduType::deserialize(buf);
        buf.advance(2);
        Self { magic, protocol_family, pdu_type, exercise: buf.get_i16(), length: buf.get_u16(), sent: buf.get_f64() }
    }
}
/// Length and type, and no family.
#[derive(Debug, Default)]
pub struct UserSlimHead {
    pub length: u16,
    pub pdu_type: PduType,
}
head!(UserSlimHead, 3);
impl GenericHeader for UserSlimHead {
    fn pdu_type(&self) -> PduType { self.pdu_type }
    fn set_pdu_type(&mut self, value: PduType) { self.pdu_type = value }
    fn protocol_family(&self) -> ProtocolFamily { ProtocolFamily::default() }
    fn set_protocol_family(&mut self, _: ProtocolFamily) {}
    fn length(&self) -> u16 { self.length }
    fn set_length(&mut self, value: u16) { self.length = value }
    fn serialize(&self, buf: &mut BytesMut) {
        buf.put_u16(self.length);
        buf.put_u8(self.pdu_type as u8);
    }
    fn deserialize<B: Buf>(buf: &mut B) -> Self {
        Self { length: buf.get_u16(), pdu_type: PduType::deserialize(buf) }
    }
}
#[derive(Debug, Default)]
pub struct UserFarHead {
    pub from: EntityId,
    pub key: [u8; 5],
    pub pdu_type: PduType,
    pub length: u16,
    pub protocol_family: ProtocolFamily,
    pub note: EntityMarking,
}
head!(UserFarHead, 28);
impl GenericHeader for UserFarHead {
    fn pdu_type(&self) -> PduType { self.pdu_type }
    fn set_pdu_type(&mut self, value: PduType) { self.pdu_type = value }
    fn protocol_family(&self) -> ProtocolFamily { self.protocol_family }
    fn set_protocol_family(&mut self, value: ProtocolFamily) { self.protocol_family = value }
    fn length(&self) -> u16 { self.length }
    fn set_length(&mut self, value: u16) { self.length = value }
    fn serialize(&self, buf: &mut BytesMut) {
        FieldSerialize::serialize_field(&self.from, buf);
        buf.put_slice(&self.key);
        buf.put_u8(self.pdu_type as u8);
        buf.put_u16(self.length);
        buf.put_u8(self.protocol_family as u8);
        FieldSerialize::serialize_field(&self.note, buf);
        buf.put_u8(0);
    }
    fn deserialize<B: Buf>(buf: &mut B) -> Self {
        let from = FieldDeserialize::deserialize_field(buf);
        let mut key = [0; 5];
        buf.copy_to_slice(&mut key);
        let pdu_type = PduType::deserialize(buf);
        let length = buf.get_u16();
        let protocol_family = ProtocolFamily::deserialize(buf);
        let note = FieldDeserialize::deserialize_field(buf);
        buf.advance(1);
        Self { from, key, pdu_type, length, protocol_family, note }
    }
}

define_pdu! {
    #[derive(Debug)]
    pub struct OwnWidePdu {
        header: UserWideHead,
        pdu_type: PduType::SupplementalEmission,
        protocol_family: ProtocolFamily::RadioCommunications,
        fields: {
            pub a: u8,
            #[count = a]
            pub shorts: Vec<u16>,
            pub small_length: u8,
            pub at: WorldCoordinate,
            #[len = small_length]
            pub small: Option<UserBlob>,
            pub n: u16,
            #[count = n]
            pub parts: Vec<UserPart>,
            pub force: ForceId,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct OwnSlimPdu {
        header: UserSlimHead,
        pdu_type: PduType::InformationOperationsReport,
        protocol_family: ProtocolFamily::Other,
        fields: {
            pub n: u32,
            padding: u16,
            padding2: u8,
            #[count = n]
            pub octets: Vec<u8>,
            pub who: EntityId,
        }
    }
}
define_pdu! {
    #[derive(Debug)]
    pub struct OwnFarPdu {
        header: UserFarHead,
        pdu_type: PduType::Attribute,
        protocol_family: ProtocolFamily::EntityManagement,
        fields: {
            pub x: f32,
            pub counts: UserCounts,
            #[count = counts.rows]
            pub ids: Vec<EntityId>,
            #[count = counts.columns]
            pub more: Vec<UserOdd>,
        }
    }
}
define_pdu! {
    pub struct OwnEmptyPdu {
        header: UserSlimHead,
        pdu_type: PduType::Detonation,
        protocol_family: ProtocolFamily::Other,
        fields: {}
    }
}

/// Written by hand; only finalize() is the library's.
#[derive(Debug, Default)]
pub struct OwnByHandPdu {
    head: UserFarHead,
    pub n: u8,
    pub ids: Vec<EntityId>,
}
impl OwnByHandPdu {
    pub fn new() -> Self {
        let mut x = Self::default();
        x.head.pdu_type = PduType::EntityState;
        x.head.protocol_family = ProtocolFamily::EntityInformation;
        x.finalize();
        x
    }
    fn expect(h: &UserFarHead) -> Result<(), DISError> {
        if h.pdu_type == PduType::EntityState { Ok(()) } else { Err(DISError::invalid_header(format!("{:?}", h.pdu_type), None)) }
    }
}
impl Pdu for OwnByHandPdu {
    type Header = UserFarHead;
    fn calculate_length(&self) -> Result<u16, DISError> {
        let size = UserFarHead::LENGTH + 1 + self.ids.field_len();
        if size > 8192 { return Err(DISError::pdu_size_exceeded(size, 8192)) }
        Ok(size as u16)
    }
    fn header(&self) -> &UserFarHead { &self.head }
    fn header_mut(&mut self) -> &mut UserFarHead { &mut self.head }
    fn serialize(&mut self, buf: &mut BytesMut) -> Result<(), DISError> {
        let length = self.calculate_length()?;
        self.head.pdu_type = PduType::EntityState;
        self.head.protocol_family = ProtocolFamily::EntityInformation;
        self.head.length = length;
        GenericHeader::serialize(&self.head, buf);
        self.n.serialize_field(buf);
        self.ids.serialize_field(buf);
        Ok(())
    }
    fn deserialize<B: Buf>(buf: &mut B) -> Result<Self, DISError> {
        if buf.remaining() < UserFarHead::LENGTH { return Err(DISError::buffer_underflow(UserFarHead::LENGTH, buf.remaining())) }
        let h = <UserFarHead as GenericHeader>::deserialize(buf);
        Self::deserialize_without_header(buf, h)
    }
    fn deserialize_without_header<B: Buf>(buf: &mut B, head: UserFarHead) -> Result<Self, DISError> {
        Self::expect(&head)?;
        if buf.remaining() < 1 { return Err(DISError::buffer_underflow(1, 0)) }
        let n = buf.get_u8();
        let all = 6 * usize::from(n);
        if buf.remaining() < all { return Err(DISError::buffer_underflow(all, buf.remaining())) }
        Ok(Self { head, n, ids: read_list(buf, usize::from(n)) })
    }
    fn as_any(&self) -> &dyn std::any::Any { self }
}
