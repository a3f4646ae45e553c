//! What a module driver built from a parameter block says about itself.

use crate::codec::{Kind, RV, Spec, ui_val};
use ur20::ur20_fbc_mod_tcp::{FromModbusParameterData, ProcessModbusTcpData};
use ur20::{ChannelValue as CV, Error, ModuleType};

pub enum Field {
    /// numeric code of the register
    U(u16),
    /// analog value of the register, in the unit of its channel
    F(f32),
}

pub struct Observed {
    pub mt: ModuleType,
    pub in_bytes: usize,
    pub out_bytes: usize,
    /// one entry per parameter register
    pub fields: Vec<Field>,
}

fn mk<M: FromModbusParameterData + ProcessModbusTcpData>(
    w: &[u16],
    f: impl Fn(&M) -> Vec<Field>,
) -> Result<Observed, Error> {
    let m = M::from_modbus_parameter_data(w)?;
    Ok(Observed {
        mt: m.module_type(),
        in_bytes: m.process_input_byte_count(),
        out_bytes: m.process_output_byte_count(),
        fields: f(&m),
    })
}

macro_rules! u {
    ($e:expr) => {
        Field::U($e.clone() as u16)
    };
}

/// Build the module of kind `k` from the block `w` with the library.
pub fn observe(k: Kind, w: &[u16]) -> Result<Observed, Error> {
    use ur20::*;
    match k {
        Kind::Di4 => mk::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>(w, |m| {
            m.ch_params.iter().map(|c| u!(c.input_delay)).collect()
        }),
        Kind::Di8 => mk::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>(w, |m| {
            m.ch_params.iter().map(|c| u!(c.input_delay)).collect()
        }),
        Kind::Do4 => mk::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>(w, |m| {
            m.ch_params.iter().map(|c| u!(c.substitute_value)).collect()
        }),
        Kind::Do4A2 => mk::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>(w, |m| {
            m.ch_params.iter().map(|c| u!(c.substitute_value)).collect()
        }),
        Kind::Do8 => mk::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>(w, |m| {
            m.ch_params.iter().map(|c| u!(c.substitute_value)).collect()
        }),
        Kind::Do16 => mk::<ur20_16do_p::Mod>(w, |_| vec![]),
        Kind::Ro4 => mk::<ur20_4ro_co_255::Mod>(w, |m| {
            m.ch_params.iter().map(|c| u!(c.substitute_value)).collect()
        }),
        Kind::Ao => mk::<ur20_4ao_ui_16::Mod>(w, |m| {
            m.ch_params
                .iter()
                .flat_map(|c| [u!(c.data_format), u!(c.output_range), Field::F(c.substitute_value)])
                .collect()
        }),
        Kind::AoDiag => mk::<ur20_4ao_ui_16_diag::Mod>(w, |m| {
            m.ch_params
                .iter()
                .flat_map(|c| {
                    [
                        u!(c.data_format),
                        u!(c.output_range),
                        Field::F(c.substitute_value),
                        u!(c.channel_diagnostics),
                    ]
                })
                .collect()
        }),
        Kind::Rtd => mk::<ur20_4ai_rtd_diag::Mod>(w, |m| {
            let mut v = vec![u!(m.mod_params.temperature_unit)];
            for c in &m.ch_params {
                v.extend([
                    u!(c.measurement_range),
                    u!(c.connection_type),
                    u!(c.conversion_time),
                    u!(c.channel_diagnostics),
                    u!(c.limit_value_monitoring),
                    u!(c.high_limit_value),
                    u!(c.low_limit_value),
                ]);
            }
            v
        }),
        Kind::Tc => mk::<ur20_4ai_tc_diag::Mod>(w, |m| {
            let mut v = vec![u!(m.mod_params.temperature_unit)];
            for c in &m.ch_params {
                v.extend([
                    u!(c.measurement_range),
                    u!(c.cold_junction_compensation),
                    u!(c.conversion_time),
                    u!(c.channel_diagnostics),
                    u!(c.limit_value_monitoring),
                    u!(c.high_limit_value),
                    u!(c.low_limit_value),
                ]);
            }
            v
        }),
        Kind::AiUiDiag => mk::<ur20_4ai_ui_16_diag::Mod>(w, |m| {
            let mut v = vec![u!(m.mod_params.frequency_suppression)];
            for c in &m.ch_params {
                v.extend([
                    u!(c.channel_diagnostics),
                    u!(c.diag_short_circuit),
                    u!(c.diag_line_break),
                    u!(c.data_format),
                    u!(c.measurement_range),
                ]);
            }
            v
        }),
        Kind::AiUi12 => mk::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>>(w, |m| {
            let mut v = vec![u!(m.mod_params.frequency_suppression)];
            for c in &m.ch_params {
                v.extend([u!(c.data_format), u!(c.measurement_range)]);
            }
            v
        }),
        Kind::AiUi16 => mk::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>>(w, |m| {
            let mut v = vec![u!(m.mod_params.frequency_suppression)];
            for c in &m.ch_params {
                v.extend([u!(c.data_format), u!(c.measurement_range)]);
            }
            v
        }),
        Kind::Ai8I => mk::<ur20_8ai_i_16_diag_hd::Mod>(w, |m| {
            let mut v = vec![u!(m.mod_params.frequency_suppression)];
            for c in &m.ch_params {
                v.extend([
                    u!(c.channel_diagnostics),
                    u!(c.diag_short_circuit),
                    u!(c.data_format),
                    u!(c.measurement_range),
                ]);
            }
            v
        }),
        Kind::Fcnt => mk::<ur20_2fcnt_100::Mod>(w, |m| {
            m.ch_params.iter().map(|c| u!(c.input_filter)).collect()
        }),
        Kind::Com => mk::<ur20_1com_232_485_422::Mod>(w, |m| {
            let mut v = vec![u!(m.mod_params.process_data_len)];
            for c in &m.ch_params {
                v.extend([
                    u!(c.operating_mode),
                    u!(c.baud_rate),
                    u!(c.stop_bit),
                    u!(c.parity),
                    u!(c.flow_control),
                    u!(c.data_bits),
                    u!(c.terminating_resistor),
                    Field::U(c.XON_char as u32 as u16),
                    Field::U(c.XOFF_char as u32 as u16),
                ]);
            }
            v
        }),
        Kind::Sil => mk::<ur20_pf_o_1di_sil::Mod>(w, |_| vec![]),
    }
}

fn bx<M: FromModbusParameterData + ProcessModbusTcpData + 'static>(
    w: &[u16],
) -> Result<Box<dyn ProcessModbusTcpData>, Error> {
    Ok(Box::new(M::from_modbus_parameter_data(w)?))
}

/// The module driver of kind `k`, built from the block `w`.
pub fn build(k: Kind, w: &[u16]) -> Result<Box<dyn ProcessModbusTcpData>, Error> {
    use ur20::*;
    match k {
        Kind::Di4 => bx::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>(w),
        Kind::Di8 => bx::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>(w),
        Kind::Do4 => bx::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>(w),
        Kind::Do4A2 => bx::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>(w),
        Kind::Do8 => bx::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>(w),
        Kind::Do16 => bx::<ur20_16do_p::Mod>(w),
        Kind::Ro4 => bx::<ur20_4ro_co_255::Mod>(w),
        Kind::Ao => bx::<ur20_4ao_ui_16::Mod>(w),
        Kind::AoDiag => bx::<ur20_4ao_ui_16_diag::Mod>(w),
        Kind::Rtd => bx::<ur20_4ai_rtd_diag::Mod>(w),
        Kind::Tc => bx::<ur20_4ai_tc_diag::Mod>(w),
        Kind::AiUiDiag => bx::<ur20_4ai_ui_16_diag::Mod>(w),
        Kind::AiUi12 => bx::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>>(w),
        Kind::AiUi16 => bx::<ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>>(w),
        Kind::Ai8I => bx::<ur20_8ai_i_16_diag_hd::Mod>(w),
        Kind::Fcnt => bx::<ur20_2fcnt_100::Mod>(w),
        Kind::Com => bx::<ur20_1com_232_485_422::Mod>(w),
        Kind::Sil => bx::<ur20_pf_o_1di_sil::Mod>(w),
    }
}

/// A module driver built without parameters, where they do not bear on the process data.
pub fn bare(k: Kind) -> Option<Box<dyn ProcessModbusTcpData>> {
    use ur20::*;
    Some(match k {
        Kind::Di4 => Box::<ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>>::default(),
        Kind::Di8 => Box::<ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>>::default(),
        Kind::Do4 => Box::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>>::default(),
        Kind::Do4A2 => Box::<ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>>::default(),
        Kind::Do8 => Box::<ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>>::default(),
        Kind::Do16 => Box::<ur20_16do_p::Mod>::default(),
        Kind::Ro4 => Box::<ur20_4ro_co_255::Mod>::default(),
        Kind::Fcnt => Box::<ur20_2fcnt_100::Mod>::default(),
        _ => return None,
    })
}

/// A module driver of kind `k` whose number of channel parameters was changed to `n`.
pub fn odd(k: Kind, w: &[u16], n: usize) -> Result<Box<dyn ProcessModbusTcpData>, Error> {
    use ur20::*;
    macro_rules! odd {
        ($t:ty) => {{
            let mut m = <$t>::from_modbus_parameter_data(w)?;
            let c = m.ch_params.first().cloned();
            m.ch_params.truncate(n);
            if let Some(c) = c {
                m.ch_params.resize(n, c);
            }
            Ok(Box::new(m))
        }};
    }
    match k {
        Kind::Di4 => odd!(ur20_di_generic::Mod<ur20_di_generic::UR20_4DI_P>),
        Kind::Di8 => odd!(ur20_di_generic::Mod<ur20_di_generic::UR20_8DI_P_2W>),
        Kind::Do4 => odd!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P>),
        Kind::Do4A2 => odd!(ur20_do_generic::Mod<ur20_do_generic::UR20_4DO_P_2A>),
        Kind::Do8 => odd!(ur20_do_generic::Mod<ur20_do_generic::UR20_8DO_P>),
        Kind::Ro4 => odd!(ur20_4ro_co_255::Mod),
        Kind::Ao => odd!(ur20_4ao_ui_16::Mod),
        Kind::AoDiag => odd!(ur20_4ao_ui_16_diag::Mod),
        Kind::Rtd => odd!(ur20_4ai_rtd_diag::Mod),
        Kind::AiUiDiag => odd!(ur20_4ai_ui_16_diag::Mod),
        Kind::AiUi12 => odd!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_12>),
        Kind::AiUi16 => odd!(ur20_ai_ui_generic::Mod<ur20_ai_ui_generic::UR20_4AI_UI_16>),
        Kind::Ai8I => odd!(ur20_8ai_i_16_diag_hd::Mod),
        Kind::Fcnt => odd!(ur20_2fcnt_100::Mod),
        Kind::Com => odd!(ur20_1com_232_485_422::Mod),
        Kind::Do16 | Kind::Tc | Kind::Sil => build(k, w),
    }
}

/// Compare a module built from `w` with the reference reading of `w`.
pub fn check(k: Kind, w: &[u16], o: &Observed) -> Option<String> {
    let n = k.param_len();
    let s = Spec { kind: k, params: w[..n].to_vec() };
    if o.mt != k.mt() {
        return Some(format!("{} built as {:?}", k.name(), o.mt));
    }
    if (o.in_bytes, o.out_bytes) != (s.in_bytes(), s.out_bytes()) {
        return Some(format!(
            "{} has {}/{} process data bytes instead of {}/{}",
            k.name(),
            o.in_bytes,
            o.out_bytes,
            s.in_bytes(),
            s.out_bytes()
        ));
    }
    if o.fields.len() != n {
        return Some(format!("{} holds {} parameters of {n}", k.name(), o.fields.len()));
    }
    for (i, f) in o.fields.iter().enumerate() {
        let bad = match f {
            Field::U(v) => *v != w[i],
            Field::F(v) => {
                // format and range of the channel precede the substitute value
                match ui_val(w[i], w[i - 1], w[i - 2]) {
                    RV::Disabled => false,
                    r => !r.matches(&CV::Decimal32(*v)),
                }
            }
        };
        if bad {
            return Some(format!(
                "{} parameter register {i} = {} read as {}",
                k.name(),
                w[i],
                match f {
                    Field::U(v) => v.to_string(),
                    Field::F(v) => v.to_string(),
                }
            ));
        }
    }
    None
}
