//! The values of headers and of the gridded-data records.
use crate::val::*;
use open_dis_rust::common::data_types::{grid_axis_descriptor::*, grid_data_record::*};
use open_dis_rust::common::pdu_header::PduStatusRecord;
use open_dis_rust::common::{LiveEntityPduHeader, PduHeader};

impl Bind for PduHeader {
    fn fv(v: &Val) -> Self {
        let v = v.tup();
        let mut h = PduHeader::default();
        h.protocol_version = Bind::fv(&v[0]);
        h.exercise_id = Bind::fv(&v[1]);
        h.pdu_type = Bind::fv(&v[2]);
        h.protocol_family = Bind::fv(&v[3]);
        h.timestamp = Bind::fv(&v[4]);
        h.length = Bind::fv(&v[5]);
        h.status_record = PduStatusRecord::from_u8(Bind::fv(&v[6]));
        h
    }
    fn tv(&self) -> Val {
        Val::T(vec![self.protocol_version.tv(), self.exercise_id.tv(), self.pdu_type.tv(), self.protocol_family.tv(),
                    self.timestamp.tv(), self.length.tv(), self.status_record.to_u8().tv()])
    }
}
impl Bind for LiveEntityPduHeader {
    fn fv(v: &Val) -> Self {
        let v = v.tup();
        let mut h = LiveEntityPduHeader::default();
        h.protocol_version = Bind::fv(&v[0]);
        h.exercise_id = Bind::fv(&v[1]);
        h.pdu_type = Bind::fv(&v[2]);
        h.protocol_family = Bind::fv(&v[3]);
        h.timestamp = Bind::fv(&v[4]);
        h.length = Bind::fv(&v[5]);
        h.subprotocol_number = Bind::fv(&v[6]);
        h
    }
    fn tv(&self) -> Val {
        Val::T(vec![self.protocol_version.tv(), self.exercise_id.tv(), self.pdu_type.tv(), self.protocol_family.tv(),
                    self.timestamp.tv(), self.length.tv(), self.subprotocol_number.tv()])
    }
}

fn parts(v: &Val) -> (&str, &[Val]) {
    match v {
        Val::V(n, x) => (n, x),
        x => panic!("harness: not a variant: {x:?}"),
    }
}
impl Bind for GridAxisDescriptor {
    fn fv(v: &Val) -> Self {
        let (n, v) = parts(v);
        let data = match n {
            "GridAxisDescriptor#0" => GridAxisType::FixedSpacing {
                number_of_points_on_x_axis: Bind::fv(&v[5]), initial_index: Bind::fv(&v[6]),
            },
            _ => GridAxisType::VariableSpacing {
                number_of_points_on_x_axis: Bind::fv(&v[5]), initial_index: Bind::fv(&v[6]),
                coordinate_scale_x: Bind::fv(&v[7]), coordinate_offset_x: Bind::fv(&v[8]),
                x_values: Bind::fv(&v[9]), padding: v[10].octs().to_vec(),
            },
        };
        GridAxisDescriptor { domain_initial: Bind::fv(&v[0]), domain_final: Bind::fv(&v[1]), domain_points: Bind::fv(&v[2]),
                             interleaf_factor: Bind::fv(&v[3]), axis_type: Bind::fv(&v[4]), data }
    }
    fn tv(&self) -> Val {
        let mut v = vec![self.domain_initial.tv(), self.domain_final.tv(), self.domain_points.tv(),
                         self.interleaf_factor.tv(), self.axis_type.tv()];
        match &self.data {
            GridAxisType::FixedSpacing { number_of_points_on_x_axis, initial_index } => {
                v.extend([number_of_points_on_x_axis.tv(), initial_index.tv()]);
                Val::V("GridAxisDescriptor#0".into(), v)
            }
            GridAxisType::VariableSpacing { number_of_points_on_x_axis, initial_index, coordinate_scale_x,
                                            coordinate_offset_x, x_values, padding } => {
                v.extend([number_of_points_on_x_axis.tv(), initial_index.tv(), coordinate_scale_x.tv(),
                          coordinate_offset_x.tv(), x_values.tv(), Val::O(padding.clone())]);
                Val::V("GridAxisDescriptor#1".into(), v)
            }
        }
    }
}
impl Bind for GridDataRecord {
    fn fv(v: &Val) -> Self {
        let (n, v) = parts(v);
        let data = match n {
            "GridDataRecord#0" => DataRepresentationType::Type0 {
                number_of_octets: Bind::fv(&v[2]), data_values: v[3].octs().to_vec(), padding: v[4].octs().to_vec(),
            },
            "GridDataRecord#1" => DataRepresentationType::Type1 {
                field_scale: Bind::fv(&v[2]), field_offset: Bind::fv(&v[3]), number_of_values: Bind::fv(&v[4]),
                data_values: Bind::fv(&v[5]), padding: v[6].octs().to_vec(),
            },
            _ => DataRepresentationType::Type2 {
                number_of_values: Bind::fv(&v[2]), padding: Bind::fv(&v[3]), data_values: Bind::fv(&v[4]),
            },
        };
        GridDataRecord { sample_type: wide_fv(&v[0]), data_representation: wide_fv(&v[1]), data }
    }
    fn tv(&self) -> Val {
        let mut v = vec![wide_tv(&self.sample_type, 2), wide_tv(&self.data_representation, 2)];
        match &self.data {
            DataRepresentationType::Type0 { number_of_octets, data_values, padding } => {
                v.extend([number_of_octets.tv(), Val::O(data_values.clone()), Val::O(padding.clone())]);
                Val::V("GridDataRecord#0".into(), v)
            }
            DataRepresentationType::Type1 { field_scale, field_offset, number_of_values, data_values, padding } => {
                v.extend([field_scale.tv(), field_offset.tv(), number_of_values.tv(), data_values.tv(), Val::O(padding.clone())]);
                Val::V("GridDataRecord#1".into(), v)
            }
            DataRepresentationType::Type2 { number_of_values, padding, data_values } => {
                v.extend([number_of_values.tv(), padding.tv(), data_values.tv()]);
                Val::V("GridDataRecord#2".into(), v)
            }
        }
    }
}
fn wide_fv<T: Code>(v: &Val) -> T { T::from_code(v.nat()).expect("harness: code") }
