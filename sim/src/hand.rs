// C17: the modules driven by hand, with the public building blocks instead of
// the coupler (part of world.rs).

struct Hand {
    mods: Vec<Box<dyn ProcessModbusTcpData>>,
    offs: Vec<ModuleOffset>,
    procs: BTreeMap<usize, MessageProcessor>,
}

type Infos<'a> = Vec<(&'a dyn ProcessModbusTcpData, &'a ModuleOffset)>;

impl Hand {
    fn new(lay: &Layout, cfg: &CouplerConfig, bare: &[bool]) -> Result<Hand, ur20::Error> {
        let mut h = Hand {
            mods: vec![],
            offs: offsets_of_process_data(&cfg.offsets),
            procs: BTreeMap::new(),
        };
        for (m, s) in lay.specs.iter().enumerate() {
            let md = if bare[m] { params::bare(s.kind) } else { None };
            h.mods.push(match md {
                Some(md) => md,
                None => params::build(s.kind, &cfg.params[m])?,
            });
            if s.kind == Kind::Com {
                let len = if s.com_cap() == 6 {
                    ProcessDataLength::EightBytes
                } else {
                    ProcessDataLength::SixteenBytes
                };
                h.procs.insert(m, MessageProcessor::new(len));
            }
        }
        Ok(h)
    }
    fn infos(&self) -> Infos<'_> {
        self.mods.iter().map(|m| &**m).zip(&self.offs).collect()
    }
}

fn com_values_in(b: &[u8]) -> RsIn {
    let i = com_in(b);
    RsIn {
        data_available: i.da,
        buffer_nearly_full: b[0] & 2 != 0,
        rx_cnt: usize::from(i.rx_cnt),
        tx_cnt_ack: usize::from(i.tx_ack),
        ready: b[0] & 0x80 != 0,
        data: i.data,
    }
}
fn com_values_out(b: &[u8]) -> RsOut {
    let o = com_out(b);
    RsOut {
        rx_buf_flush: o.rx_flush,
        tx_buf_flush: o.tx_flush,
        disable_tx_hw_buffer: o.hold,
        tx_cnt: usize::from(o.tx_cnt),
        rx_cnt_ack: usize::from(o.rx_ack),
        reset: o.reset,
        data: o.data,
    }
}

/// Does an output of this kind take the value?
fn takes(s: &Spec, v: &CV) -> bool {
    match (v, s.kind) {
        (CV::Bit(_), k) if k.is_bits_out() => true,
        (CV::Decimal32(_), Kind::Ao | Kind::AoDiag) => true,
        (CV::FcntOut(o), Kind::Fcnt) => o.duration <= Duration::from_micros(FCNT_MAX_US),
        (CV::ComRsOut(o), Kind::Com) => {
            o.tx_cnt < 4 && o.rx_cnt_ack < 4 && o.data.len() <= s.com_cap()
        }
        (CV::Disabled, k) => k.has_out() && k != Kind::Com,
        _ => false,
    }
}

/// The channel value `v` asks for this.
fn asks(v: &CV) -> Option<Req> {
    use ur20::ur20_2fcnt_100::Command;
    Some(match v {
        CV::Bit(b) => Req::Bit(*b),
        CV::Decimal32(x) => Req::Dec(*x),
        CV::Disabled => Req::Disabled,
        CV::FcntOut(o) => Req::F(
            o.duration.as_micros() as u64,
            match o.command {
                None => 0,
                Some(Command::Start) => 1,
                Some(Command::Stop) => 2,
            },
        ),
        _ => return None,
    })
}

/// Does the interpretation of this kind's process data need its channel parameters?
fn needs_params(k: Kind) -> bool {
    use Kind::*;
    matches!(k, Ao | AoDiag | Rtd | AiUiDiag | AiUi12 | AiUi16 | Ai8I)
}

fn bytes_of(w: &[u16], n: usize) -> Vec<u8> {
    get(w, 0, n)
}

impl World {
    /// The output bytes of every module in two images mean the same.
    fn same_outputs(&mut self, class: &'static str, what: &str, a: &[u16], b: &[u16]) -> V<()> {
        let lay = self.lay.clone();
        if a.len() != lay.out_words || b.len() != lay.out_words {
            return viol(
                class,
                format!("{what}: {} and {} of {} registers", a.len(), b.len(), lay.out_words),
            );
        }
        for (m, sp) in lay.specs.iter().enumerate() {
            let (Some(x), Some(y)) = (lay.out_b(m, a), lay.out_b(m, b)) else { continue };
            self.stats.checks += 1;
            let e = if sp.kind == Kind::Com {
                // the bytes behind the segment mean nothing
                (x[0] != y[0] || x[1] != y[1] || com_out(&x).data != com_out(&y).data)
                    .then(|| "another status, length or segment".to_string())
            } else {
                (0..sp.kind.channels()).find_map(|c| check_out_channel(sp, c, &x, &y, None))
            };
            if let Some(e) = e {
                return viol(
                    class,
                    format!(
                        "{what}: module {m} {} {:?}: {e}; {} and {}",
                        sp.kind.name(),
                        sp.params,
                        hex(&x),
                        hex(&y)
                    ),
                );
            }
        }
        Ok(())
    }

    /// The cycle `coupler.next(inp, out)`, which returned `r`, done by hand.
    fn hand_cycle(
        &mut self,
        s: &mut Sess,
        inp: &[u16],
        out: &[u16],
        wf: Wf,
        r: Option<&[u16]>,
    ) -> V<()> {
        let Some(mut h) = s.hand.take() else { return Ok(()) };
        let x = self.hand_cycle_in(s, &mut h, inp, out, wf, r);
        s.hand = Some(h);
        x
    }

    fn hand_cycle_in(
        &mut self,
        s: &mut Sess,
        h: &mut Hand,
        inp: &[u16],
        out: &[u16],
        wf: Wf,
        r: Option<&[u16]>,
    ) -> V<()> {
        let lay = self.lay.clone();
        let pan = |what: &str, m: String| Viol { class: "panic", msg: format!("{what}: {m}") };
        let i = lib(|| process_input_data(&h.infos(), inp))
            .map_err(|m| pan("process_input_data", m))?;
        let o = lib(|| process_output_data(&h.infos(), out))
            .map_err(|m| pan("process_output_data", m))?;
        self.stats.checks += 2;
        for (what, ok, have, need) in [
            ("input", i.is_ok(), inp.len(), lay.in_words),
            ("output", o.is_ok(), out.len(), lay.out_words),
        ] {
            if ok && have < need {
                return viol(
                    "hand-short",
                    format!("{what} image of {have} registers decoded, {need} are mapped"),
                );
            }
        }
        if wf == Wf::Short || r.is_none() {
            return Ok(());
        }
        // an output state that cannot be encoded is fine if a request replaces it
        let good = wf == Wf::Good;
        let (iv, ov) = match (i, o) {
            (Ok(i), Ok(o)) => (i, o),
            (i, o) => {
                return viol(
                    "hand-refused",
                    format!(
                        "images the coupler takes: input {:?}, output {:?}; in=[{}] out=[{}]",
                        i.err(),
                        o.err(),
                        words(inp),
                        words(out)
                    ),
                );
            }
        };
        if good {
            self.hand_values(s, &iv, &ov, inp, out)?;
        }
        let enc = |h: &Hand, v: &[Vec<CV>]| {
            lib(|| process_output_values(&h.infos(), v))
                .map_err(|m| pan("process_output_values", m))
        };
        match enc(h, &ov)? {
            Ok(back) if good => {
                self.same_outputs("hand-back", "decoded and encoded", &out[..lay.out_words], &back)?;
            }
            Err(e) if good => {
                return viol(
                    "hand-back",
                    format!("decoded outputs cannot be encoded: {e:?}; out=[{}]", words(out)),
                );
            }
            _ => {}
        }
        let mut nv = ov.clone();
        for ((m, ch), req) in &s.pend {
            match (h.procs.get_mut(m), req) {
                (Some(p), Req::Bytes(b)) => {
                    lib(|| p.write_all(b).is_ok()).map_err(|m| pan("write", m))?;
                }
                _ => nv[*m][*ch] = req.value(),
            }
        }
        for (m, p) in &mut h.procs {
            let (CV::ComRsIn(a), CV::ComRsOut(b)) = (&iv[*m][0], &ov[*m][0]) else {
                unreachable!()
            };
            let x = lib(|| p.next(a, b)).map_err(|m| pan("MessageProcessor::next", m))?;
            nv[*m][0] = CV::ComRsOut(x);
        }
        match (enc(h, &nv)?, r) {
            (Ok(img), Some(r)) => {
                self.same_outputs("hand-image", "by hand and by the coupler", &img, r)
            }
            (Err(e), _) => viol("hand-result", format!("fine for the coupler, by hand: {e:?}")),
            _ => Ok(()),
        }
    }

    /// Decoded values against the register bytes and against what the coupler reports.
    fn hand_values(
        &mut self,
        s: &Sess,
        iv: &[Vec<CV>],
        ov: &[Vec<CV>],
        inp: &[u16],
        out: &[u16],
    ) -> V<()> {
        let lay = self.lay.clone();
        for (m, sp) in lay.specs.iter().enumerate() {
            let (ib, ob) = (lay.in_b(m, inp), lay.out_b(m, out));
            let none = || vec![RV::None; sp.kind.channels()];
            let (a, b) = if sp.kind == Kind::Com {
                let (a, b) = (ib.clone().unwrap(), ob.clone().unwrap());
                (
                    iv[m] == [CV::ComRsIn(com_values_in(&a))],
                    ov[m] == [CV::ComRsOut(com_values_out(&b))],
                )
            } else {
                let eq = |w: Vec<RV>, v: &[CV]| {
                    w.len() == v.len() && w.iter().zip(v).all(|(w, v)| w.matches(v))
                };
                (
                    eq(ib.as_ref().map_or_else(none, |b| sp.inputs(b)), &iv[m]),
                    eq(ob.as_ref().map_or_else(none, |b| sp.outputs(b)), &ov[m]),
                )
            };
            self.stats.checks += 2;
            let name = sp.kind.name();
            for (what, ok, bytes, v) in [("input", a, &ib, &iv[m]), ("output", b, &ob, &ov[m])] {
                if !ok {
                    return viol(
                        "hand-values",
                        format!(
                            "module {m} {name} {:?}: {what} bytes {} decoded as {v:?}",
                            sp.params,
                            bytes.as_ref().map_or("-".into(), |b| hex(b))
                        ),
                    );
                }
            }
            if sp.kind != Kind::Com {
                for (what, v, c) in
                    [("inputs", &iv[m], s.coupler.inputs()), ("outputs", &ov[m], s.coupler.outputs())]
                {
                    if c.get(m) != Some(v) {
                        return viol(
                            "hand-values",
                            format!(
                                "module {m} {name}: {what} {v:?} by hand, {:?} from the coupler",
                                c.get(m)
                            ),
                        );
                    }
                }
            }
        }
        Ok(())
    }

    /// A call of a module with register data or values that may not fit.
    fn op_hand(&mut self) -> V<()> {
        let Some(h) = self.sess.as_mut().and_then(|s| s.hand.take()) else { return Ok(()) };
        let r = if self.c.chance(S::App, 150) {
            self.op_hand_station(&h)
        } else {
            self.op_hand_in(&h)
        };
        self.sess.as_mut().unwrap().hand = Some(h);
        r
    }

    /// The whole station with values, images or offsets that may not fit.
    fn op_hand_station(&mut self, h: &Hand) -> V<()> {
        let a = S::App;
        let lay = self.lay.clone();
        let n = lay.specs.len();
        let pan = |what: &str, m: String| Viol { class: "panic", msg: format!("{what}: {m}") };
        self.stats.checks += 1;
        let mut v: Vec<Vec<CV>> = vec![];
        for sp in &lay.specs {
            v.push(if sp.kind.has_out() {
                (0..sp.kind.channels()).map(|_| self.fitting_value(sp)).collect()
            } else {
                vec![CV::None; sp.kind.channels()]
            });
        }
        let mut offs = h.offs.clone();
        let (mut fits, mut moved) = (true, false);
        let m = self.c.usize(a, n);
        match self.c.below(a, 6) {
            0 => {
                let len = self.c.pick(a, &[0, n - 1, n + 1, 2 * n]);
                v.resize(len, v[m].clone());
                fits = false;
            }
            1 if lay.specs[m].kind.has_out() => {
                let ch = self.c.usize(a, v[m].len());
                v[m][ch] = self.any_value();
                fits = takes(&lay.specs[m], &v[m][ch]);
            }
            2 if lay.specs[m].kind.has_out() => {
                let c = v[m].len();
                let len = self.c.pick(a, &[0, c - 1, c + 1, 2 * c]);
                let x = v[m][0].clone();
                v[m].resize(len, x);
                fits = false;
            }
            3 | 4 => {
                moved = true;
                for _ in 0..=self.c.usize(a, 2) {
                    let (m, w) = (self.c.usize(a, n), self.c.raw16(a));
                    let d = self.c.pick(a, &[1, 4, 8, 16, 24, 0x7FF, 0x8000, 0xFFF0, 0xFFF8]);
                    let other = offs[self.c.usize(a, n)].clone();
                    let o = &mut offs[m];
                    let f = |x: Option<u16>| x.map(|x| x.wrapping_add(d));
                    match self.c.below(a, 4) {
                        0 => *o = ModuleOffset { input: f(o.input), output: f(o.output) },
                        1 => *o = other,
                        2 => *o = ModuleOffset { input: Some(w), output: Some(w) },
                        _ => *o = ModuleOffset { input: o.output, output: o.input },
                    }
                }
            }
            _ => {}
        }
        let infos: Infos = h.mods.iter().map(|m| &**m).zip(&offs).collect();
        let r = lib(|| process_output_values(&infos, &v))
            .map_err(|e| pan(&format!("process_output_values of {v:?} at {offs:?}"), e))?;
        ev!(self, "station by hand: {v:?} at {offs:?}: {:?}", r.as_ref().err());
        if moved {
            // nothing is promised about the values of a wrong place, only no panic
            let mut img = |len: usize| -> Vec<u16> {
                let len = self.c.pick(a, &[0, 1, len.saturating_sub(1), len, len + 1, 300]);
                (0..len).map(|_| self.c.raw16(a)).collect()
            };
            let (i, o) = (img(lay.in_words), img(lay.out_words));
            let _ = lib(|| process_input_data(&infos, &i))
                .map_err(|e| pan(&format!("process_input_data of [{}] at {offs:?}", words(&i)), e))?;
            let _ = lib(|| process_output_data(&infos, &o))
                .map_err(|e| pan(&format!("process_output_data of [{}] at {offs:?}", words(&o)), e))?;
            return Ok(());
        }
        let img = match r {
            Ok(img) if fits => img,
            Ok(img) => {
                return viol(
                    "hand-accepted",
                    format!("station: {v:?} encoded as [{}]", words(&img)),
                );
            }
            Err(e) if fits => {
                return viol("hand-refused", format!("station: {v:?} refused: {e:?}"));
            }
            Err(_) => return Ok(()),
        };
        if img.len() != lay.out_words {
            return viol(
                "hand-image",
                format!("station: {} registers of {}", img.len(), lay.out_words),
            );
        }
        for (m, sp) in lay.specs.iter().enumerate() {
            let Some(b) = lay.out_b(m, &img) else { continue };
            let zero = vec![0; b.len()];
            let e = v[m].iter().enumerate().find_map(|(c, v)| match v {
                CV::ComRsOut(o) => (*o != com_values_out(&b)).then(|| "another segment".to_string()),
                _ => check_out_channel(sp, c, &zero, &b, asks(v).as_ref()),
            });
            if let Some(e) = e {
                return viol(
                    "hand-image",
                    format!(
                        "station: module {m} {} {:?}: {:?} encoded as {}: {e}",
                        sp.kind.name(),
                        sp.params,
                        v[m],
                        hex(&b)
                    ),
                );
            }
        }
        Ok(())
    }

    fn op_hand_in(&mut self, h: &Hand) -> V<()> {
        let a = S::App;
        let m = self.c.usize(a, h.mods.len());
        let sp = self.lay.specs[m].clone();
        let pan = |what: &str, m: String| Viol { class: "panic", msg: format!("{what}: {m}") };
        let name = sp.kind.name();
        // now and then the application got the number of channel parameters wrong
        let mut odd = None;
        if !matches!(sp.kind, Kind::Do16 | Kind::Tc | Kind::Sil) && self.c.chance(a, 150) {
            let n = self.c.usize(a, sp.kind.channels() + 3);
            let b = lib(|| params::odd(sp.kind, &sp.params, n)).map_err(|e| pan(name, e))?;
            odd = b.ok().map(|b| (b, n));
        }
        let wrong = odd.as_ref().is_some_and(|(_, n)| *n != sp.kind.channels());
        let lack = odd.as_ref().is_some_and(|(_, n)| *n < sp.kind.channels());
        let md = odd.as_ref().map_or(&h.mods[m], |(b, _)| b);
        let with = odd.as_ref().map_or(String::new(), |(_, n)| format!(" ({n} parameters)"));
        let (ni, no) = (sp.in_bytes().div_ceil(2), sp.out_bytes().div_ceil(2));
        self.stats.checks += 1;
        let ops = if sp.kind == Kind::Com { 6 } else { 4 };
        match self.c.below(a, ops) {
            4 => self.com_bytes(false),
            5 => self.com_bytes(true),
            op @ 0..=1 => {
                let need = if op == 0 { ni } else { no };
                let n = if self.c.chance(a, 400) { self.c.usize(a, need + 3) } else { need };
                let mut w: Vec<u16> = (0..n).map(|_| self.c.raw16(a)).collect();
                if sp.kind == Kind::Com && n > 0 && self.c.chance(a, 700) {
                    w[0] = w[0] & 0xFF | (self.c.usize(a, sp.com_cap() + 2) as u16) << 8;
                }
                let (what, r) = if op == 0 {
                    ("process_input_data", lib(|| md.process_input_data(&w)))
                } else {
                    ("process_output_data", lib(|| md.process_output_data(&w)))
                };
                let r = r.map_err(|e| pan(&format!("{name}: {what}{with}"), e))?;
                ev!(self, "module {m}{with} {what} [{}]: {:?}", words(&w), r.as_ref().err());
                // a serial segment needs no more than its own length says
                let short = match sp.kind {
                    Kind::Com => w.first().is_none_or(|x| usize::from(x >> 8) + 2 > 2 * n),
                    _ => n < need,
                };
                let want: Option<Vec<RV>> = match sp.kind {
                    Kind::Com => None,
                    _ if n != need => None,
                    k if n == 0 => Some(vec![RV::None; k.channels()]),
                    _ if op == 0 => Some(sp.inputs(&bytes_of(&w, sp.in_bytes()))),
                    _ => Some(sp.outputs(&bytes_of(&w, sp.out_bytes()))),
                };
                match r {
                    Ok(v) if short => viol(
                        "hand-short",
                        format!("module {m} {name}: {what} of {n}/{need} registers gives {v:?}"),
                    ),
                    Ok(v) if lack && n > 0 && needs_params(sp.kind) => viol(
                        "hand-accepted",
                        format!("module {m} {name}{with}: {what} gives {v:?}"),
                    ),
                    Ok(v) if v.len() != sp.kind.channels() && (sp.kind, op) != (Kind::Sil, 0) => viol(
                        "hand-values",
                        format!("module {m} {name}{with}: {what} gives {} values", v.len()),
                    ),
                    Ok(v) => {
                        let ok = match (&want, sp.kind) {
                            _ if wrong => true,
                            (Some(r), _) => {
                                r.len() == v.len() && r.iter().zip(&v).all(|(r, v)| r.matches(v))
                            }
                            (_, Kind::Com) => {
                                let b = bytes_of(&w, 2 * n);
                                if op == 0 {
                                    v == [CV::ComRsIn(com_values_in(&b))]
                                } else {
                                    v == [CV::ComRsOut(com_values_out(&b))]
                                }
                            }
                            _ => true,
                        };
                        if !ok {
                            return viol(
                                "hand-values",
                                format!(
                                    "module {m} {name} {:?}: {what} of [{}] gives {v:?}",
                                    sp.params,
                                    words(&w)
                                ),
                            );
                        }
                        Ok(())
                    }
                    Err(e) if n == need && !short && !wrong => viol(
                        "hand-refused",
                        format!("module {m} {name}: {what} of [{}]: {e:?}", words(&w)),
                    ),
                    _ => Ok(()),
                }
            }
            _ => {
                let ch = sp.kind.channels();
                let n = if self.c.chance(a, 300) { self.c.usize(a, ch + 3) } else { ch };
                let mut v: Vec<CV> = vec![];
                let mix = self.c.chance(a, 500);
                for _ in 0..n {
                    v.push(if mix && self.c.chance(a, 300) {
                        self.any_value()
                    } else {
                        self.fitting_value(&sp)
                    });
                }
                let r = lib(|| md.process_output_values(&v))
                    .map_err(|e| pan(&format!("{name}{with}: process_output_values of {v:?}"), e))?;
                ev!(self, "module {m}{with} process_output_values {v:?}: {:?}", r.as_ref().err());
                if !sp.kind.has_out() {
                    return Ok(());
                }
                let ok = n == ch && v.iter().all(|v| takes(&sp, v));
                match r {
                    Ok(w) if !ok || lack && needs_params(sp.kind) => viol(
                        "hand-accepted",
                        format!("module {m} {name}{with}: {v:?} encoded as [{}]", words(&w)),
                    ),
                    Ok(w) if w.len() != no => viol(
                        "hand-image",
                        format!("module {m} {name}{with}: {v:?} encoded as {} registers", w.len()),
                    ),
                    Ok(_) if wrong => Ok(()),
                    Ok(w) => {
                        let b = bytes_of(&w, sp.out_bytes());
                        let zero = vec![0; b.len()];
                        let e = v.iter().enumerate().find_map(|(c, v)| match v {
                            CV::ComRsOut(o) => {
                                (*o != com_values_out(&b)).then(|| "another segment".to_string())
                            }
                            _ => check_out_channel(&sp, c, &zero, &b, asks(v).as_ref()),
                        });
                        match e {
                            Some(e) => viol(
                                "hand-image",
                                format!(
                                    "module {m} {name} {:?}: {v:?} encoded as [{}]: {e}",
                                    sp.params,
                                    words(&w)
                                ),
                            ),
                            None => Ok(()),
                        }
                    }
                    Err(e) if ok && !wrong => {
                        viol("hand-refused", format!("module {m} {name}: {v:?} refused: {e:?}"))
                    }
                    _ => Ok(()),
                }
            }
        }
    }

    /// The byte messages of serial modules on their own.
    fn com_bytes(&mut self, encode: bool) -> V<()> {
        let a = S::App;
        let pan = |what: &str, m: String| Viol { class: "panic", msg: format!("{what}: {m}") };
        if encode {
            let v = match self.any_value() {
                CV::ComRsOut(o) => o,
                _ => RsOut {
                    tx_cnt: self.c.usize(a, 5),
                    rx_cnt_ack: self.c.usize(a, 5),
                    data: (0..self.c.usize(a, 18)).map(|i| i as u8 ^ 0x5A).collect(),
                    ..Default::default()
                },
            };
            let short = self.c.chance(a, 500);
            let (len, cap) = if short {
                (ProcessDataLength::EightBytes, 6)
            } else {
                (ProcessDataLength::SixteenBytes, 14)
            };
            let r = lib(|| v.try_into_byte_message(&len)).map_err(|e| pan("encode", e))?;
            ev!(self, "{v:?} as message of {} bytes: {r:?}", cap + 2);
            let fits = v.tx_cnt < 4 && v.rx_cnt_ack < 4 && v.data.len() <= cap;
            let good = match &r {
                Ok(b) => {
                    fits && b.len() == cap + 2
                        && com_values_out(b) == v
                        && b[2 + v.data.len()..].iter().all(|x| *x == 0)
                }
                Err(_) => !fits,
            };
            if !good {
                return viol("hand-message", format!("{v:?} as {} bytes: {r:?}", cap + 2));
            }
            return Ok(());
        }
        let n = self.c.usize(a, 20);
        let mut b: Vec<u8> = (0..n).map(|_| self.c.below(a, 256) as u8).collect();
        if n > 1 && self.c.chance(a, 800) {
            b[1] = self.c.usize(a, n) as u8;
        }
        let fits = n > 1 && usize::from(b[1]) + 2 <= n;
        let i = lib(|| RsIn::try_from_byte_message(&b)).map_err(|e| pan("decode", e))?;
        let o = lib(|| RsOut::try_from_byte_message(&b)).map_err(|e| pan("decode", e))?;
        ev!(self, "message {}: {i:?} {o:?}", hex(&b));
        let good = match (&i, &o) {
            (Ok(i), Ok(o)) => fits && *i == com_values_in(&b) && *o == com_values_out(&b),
            (Err(_), Err(_)) => !fits,
            _ => false,
        };
        if !good {
            return viol("hand-message", format!("message {}: {i:?} {o:?}", hex(&b)));
        }
        Ok(())
    }

    fn fitting_value(&mut self, sp: &Spec) -> CV {
        let a = S::App;
        match sp.kind {
            Kind::Ao | Kind::AoDiag => CV::Decimal32(self.analog(sp, 0)),
            Kind::Fcnt => Req::F(gen_us(&mut self.c, a), self.c.below(a, 3) as u8).value(),
            Kind::Com => CV::ComRsOut(RsOut {
                tx_cnt: self.c.usize(a, 4),
                rx_cnt_ack: self.c.usize(a, 4),
                data: {
                    let n = self.c.usize(a, sp.com_cap() + 1);
                    (0..n).map(|_| self.c.below(a, 256) as u8).collect()
                },
                reset: self.c.chance(a, 500),
                rx_buf_flush: self.c.chance(a, 200),
                tx_buf_flush: self.c.chance(a, 200),
                disable_tx_hw_buffer: self.c.chance(a, 200),
            }),
            _ => CV::Bit(self.c.chance(a, 500)),
        }
    }

    /// Any value at all.
    fn any_value(&mut self) -> CV {
        use ur20::ur20_2fcnt_100::{Command, ProcessInput, ProcessOutput};
        let a = S::App;
        match self.c.below(a, 13) {
            0 => CV::Bit(true),
            1 => CV::Decimal32(self.c.pick(a, &[5.0, f32::NAN, f32::INFINITY, -1e30])),
            2 => CV::Bytes(vec![0x55; self.c.usize(a, 40)]),
            3 => CV::Disabled,
            4 => CV::None,
            5 => CV::FcntOut(ProcessOutput {
                duration: Duration::from_micros(FCNT_MAX_US),
                command: Some(Command::Start),
            }),
            6 => CV::FcntOut(ProcessOutput {
                duration: self.c.pick(
                    a,
                    &[
                        Duration::from_micros(FCNT_MAX_US + 1),
                        Duration::MAX,
                        Duration::from_secs(9),
                        Duration::from_secs(4295),
                        Duration::from_secs(u64::MAX),
                    ],
                ),
                command: None,
            }),
            7 => CV::FcntIn(ProcessInput { duration: None, count: 3, active: true }),
            8 => CV::ComRsIn(RsIn::default()),
            9 | 10 => CV::ComRsOut(RsOut {
                tx_cnt: self.c.pick(a, &[0, 3, 4, 99, usize::MAX]),
                rx_cnt_ack: self.c.pick(a, &[0, 3, 4, 99]),
                data: vec![7; self.c.usize(a, 300)],
                reset: true,
                rx_buf_flush: true,
                tx_buf_flush: true,
                disable_tx_hw_buffer: true,
            }),
            11 => CV::SilPFIn(Default::default()),
            _ => CV::Bit(false),
        }
    }
}
