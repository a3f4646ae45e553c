// One coupler cycle and the checks around it (part of world.rs).

#[derive(PartialEq, Clone, Copy, Debug)]
enum Wf {
    Good,
    Short,
    Bad,
}

fn same_values(what: &str, a: &[Vec<CV>], b: &[Vec<CV>]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    if a.len() != b.len() {
        return Err(format!("{what} of {} and {} modules", a.len(), b.len()));
    }
    for (m, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return Err(format!("{what} of module {m}: {x:?} instead of {y:?}"));
        }
    }
    unreachable!()
}

struct FmtHash(u64);
impl std::fmt::Write for FmtHash {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x0100_0000_01B3);
        }
        self.0 ^= self.0 >> 29;
        Ok(())
    }
}

/// C14: calls of a coupler that has nothing to do with the one under observation.
fn unrelated(lay: &Layout, u: &mut Coupler, c: &mut Choice) -> V<()> {
    let a = S::App;
    c.log = Default::default();
    if c.chance(a, 300) {
        return Ok(());
    }
    let (mut inp, mut out) = (vec![0u16; lay.in_words], vec![0u16; lay.out_words]);
    let m = c.usize(a, lay.specs.len());
    let ch = c.usize(a, lay.specs[m].kind.channels().max(1));
    for (i, s) in lay.specs.iter().enumerate() {
        if s.kind == Kind::Com {
            let cap = s.com_cap();
            for (img, p) in [(&mut inp, lay.lay[i].inp), (&mut out, lay.lay[i].out)] {
                let mut b: Vec<u8> = (0..cap + 2).map(|_| c.below(a, 256) as u8).collect();
                b[1] = c.usize(a, cap + 1) as u8;
                put(img, p.unwrap(), &b);
            }
            continue;
        }
        if let Some(p) = lay.lay[i].inp {
            put(&mut inp, p, &s.gen_in(c, a));
        }
        if let Some(p) = lay.lay[i].out {
            put(&mut out, p, &s.gen_out(c, a));
        }
    }
    let v = match lay.specs[m].kind {
        Kind::Com => CV::Bytes(vec![0x77; c.usize(a, 30)]),
        Kind::Ao | Kind::AoDiag => CV::Decimal32(c.below(a, 20) as f32),
        _ => CV::Bit(c.chance(a, 500)),
    };
    let (w, r, short) = (c.usize(a, 30), c.usize(a, 30), c.chance(a, 100));
    lib(|| {
        let _ = u.set_output(&Address { module: m, channel: ch }, v);
        if let Some(x) = u.writer(m) {
            let _ = x.write(&vec![0x66; w]);
        }
        if let Some(x) = u.reader(m) {
            let _ = x.read(&mut vec![0; r]);
        }
        let _ = u.next(if short { &[] } else { &inp }, &out);
    })
    .map_err(|m| Viol { class: "panic", msg: format!("unrelated coupler: {m}") })
}

/// Properties that do not hold if a well-formed exchange is refused.
const REFUSAL: &[P] = &[
    P::C01,
    P::C02,
    P::C04,
    P::C05,
    P::C06,
    P::C07,
    P::C08,
    P::C10,
    P::C11,
    P::C13,
    P::C17,
];
/// Properties that do not hold if the returned image does not fit the station.
const IMAGE: &[P] =
    &[P::C01, P::C02, P::C03, P::C04, P::C05, P::C06, P::C07, P::C10, P::C11, P::C13, P::C17];

impl World {
    fn well_formed(&self, inp: &[u16], out: &[u16]) -> Wf {
        let lay = &self.lay;
        if inp.len() < lay.in_words || out.len() < lay.out_words {
            return Wf::Short;
        }
        for &m in &self.coms {
            let cap = lay.specs[m].com_cap();
            if usize::from(lay.in_b(m, inp).unwrap()[1]) > cap
                || usize::from(lay.out_b(m, out).unwrap()[1]) > cap
            {
                return Wf::Bad;
            }
        }
        for &m in &self.out_mods {
            if lay.specs[m].kind == Kind::Fcnt && over_period(&lay.out_b(m, out).unwrap()) {
                return Wf::Bad;
            }
        }
        Wf::Good
    }

    /// Faults of the images themselves: truncated, extended or damaged responses.
    fn damage_images(&mut self, inp: &mut InImg, out: &mut Vec<u16>) {
        let (iw, ow) = (self.lay.in_words, self.lay.out_words);
        let f = S::Fault;
        if self.chance(f, self.k.extend) {
            self.fault(F::Extend);
            for _ in 0..=self.c.usize(f, 3) {
                let w = self.c.raw16(f);
                inp.regs.push(w);
            }
            for _ in 0..self.c.usize(f, 3) {
                let w = self.c.raw16(f);
                out.push(w);
            }
        }
        // a long series of truncated images now and then
        let series = !self.calm && self.series > 0;
        if series {
            self.series -= 1;
        }
        if self.chance(f, self.k.short) || series {
            if !series && self.k.series > 0 && self.chance(f, self.k.series) {
                self.fault(F::Series);
                self.series = 4 + self.c.below(f, 400);
            }
            let o = self.c.chance(f, 500);
            if o && ow > 0 {
                self.fault(F::ShortOut);
                let n = if self.c.chance(f, 500) { 1 } else { 1 + self.c.usize(f, ow) };
                out.truncate(ow - n);
            } else if iw > 0 {
                self.fault(F::ShortIn);
                let n = if self.c.chance(f, 500) { 1 } else { 1 + self.c.usize(f, iw) };
                inp.regs.truncate(iw - n);
            }
        }
        if self.chance(f, self.k.malform) && inp.regs.len() >= iw && out.len() >= ow {
            let fc: Vec<usize> = self
                .out_mods
                .iter()
                .copied()
                .filter(|&m| self.lay.specs[m].kind == Kind::Fcnt)
                .collect();
            if !fc.is_empty() && (self.coms.is_empty() || self.c.chance(f, 400)) {
                let m = fc[self.c.usize(f, fc.len())];
                self.fault(F::Unencodable);
                let p = self.lay.lay[m].out.unwrap() + 4 * self.c.usize(f, 2);
                put(out, p, &[0x90, 0x01]);
            } else if !self.coms.is_empty() {
                let m = self.coms[self.c.usize(f, self.coms.len())];
                self.fault(F::Malformed);
                let cap = self.lay.specs[m].com_cap() as u64;
                let l = self.c.range(f, cap + 1, 255) as u8;
                if self.c.chance(f, 500) {
                    put(out, self.lay.lay[m].out.unwrap() + 1, &[l]);
                } else {
                    put(&mut inp.regs, self.lay.lay[m].inp.unwrap() + 1, &[l]);
                }
            }
        }
        if self.chance(f, self.k.corrupt) {
            self.fault(F::Corrupt);
            match self.c.below(f, 5) {
                0 => {
                    let n = self.c.usize(f, 2 * iw + 3);
                    inp.regs = (0..n).map(|_| self.c.raw16(f)).collect();
                }
                1 => {
                    let n = self.c.usize(f, 2 * ow + 3);
                    *out = (0..n).map(|_| self.c.raw16(f)).collect();
                }
                2 => out.clear(),
                _ => {
                    for _ in 0..=self.c.usize(f, 4) {
                        let v = self.c.raw16(f);
                        let (i, o) = (inp.regs.len(), out.len());
                        if i > 0 && (o == 0 || self.c.chance(f, 500)) {
                            inp.regs[self.c.usize(f, i)] = v;
                        } else if o > 0 {
                            out[self.c.usize(f, o)] = v;
                        }
                    }
                }
            }
        }
    }

    fn cycle(&mut self, mut inp: InImg, mut out: Vec<u16>) -> V<()> {
        self.attempts += 1;
        self.stats.cycles += 1;
        self.damage_images(&mut inp, &mut out);
        let wf = self.well_formed(&inp.regs, &out);
        let Some(mut s) = self.sess.take() else { return Ok(()) };
        self.watermark(&mut s);
        let r = self.cycle_in(&mut s, &inp, &out, wf);
        let r = match self.memory(&mut s) {
            Err(e) if r.is_ok() => Err(e),
            _ => r,
        };
        let id = s.id;
        let k = s.k;
        self.stats.longest_session = self.stats.longest_session.max(k);
        if s.intact && !self.end {
            self.sess = Some(s);
        } else if !self.end {
            // a coupler built from damaged registers lives for a few cycles only
            if self.calm || self.c.chance(S::Fault, 300) {
                self.conn += 1;
                self.ph = Ph::Down;
                self.at(1, Ev::Restart);
                r?;
                self.check_phase();
                return Ok(());
            }
            self.sess = Some(s);
        }
        match r? {
            Some(img) if !self.end => {
                let tag = Tag { session: id, k };
                let ok = img.len() == self.lay.out_words;
                if ok {
                    let wid = self.send(Op::Write(img.clone(), tag));
                    self.ph = Ph::Writing { id: wid, img, tag, tries: 0 };
                } else {
                    self.ph = Ph::Idle;
                    self.schedule_poll();
                }
            }
            _ => {
                self.ph = Ph::Idle;
                self.check_phase();
                self.schedule_poll();
            }
        }
        if self.calm && !self.end {
            self.calm_cycles += 1;
            self.calm_step()?;
        }
        Ok(())
    }

    // ---- memory ---------------------------------------------------------------

    fn watermark(&mut self, s: &mut Sess) {
        let l = &self.ledgers[s.id as usize];
        let mut n = 0;
        for &m in &self.coms {
            n += l.queued[m].len() - l.accepted[m];
        }
        for r in s.pend.values() {
            if let Req::Bytes(b) = r {
                n += b.len();
            }
        }
        s.most_unsent = s.most_unsent.max(n);
        let n = s.avail.iter().map(|q| q.len()).sum();
        s.most_unread = s.most_unread.max(n);
    }

    /// What the library holds must not depend on how long it has been running.
    fn memory(&mut self, s: &mut Sess) -> V<()> {
        if self.p != P::C18 {
            return Ok(());
        }
        self.watermark(s);
        let held = crate::mem::held();
        self.stats.checks += 1;
        self.stats.most_held = self.stats.most_held.max(held as u64);
        let ch: usize = self.lay.specs.iter().map(|s| s.kind.channels()).sum();
        // a byte may be a segment of its own
        let queues = 96 * s.most_unsent + 8 * s.most_unread;
        s.calls += 1;
        if s.calls <= 10 {
            s.held_first = s.held_first.max(held);
        }
        // buffers of a fixed size may be as large as they like, within reason
        let (mods, coms) = (self.lay.specs.len(), self.coms.len());
        let room = 65_536 + 65_536 * mods;
        // or be allocated when they are needed first
        let more = 4096 + 256 * mods + 128 * ch + 8192 * coms;
        let most = s.held_first.min(room as i64) + (more + queues) as i64;
        if held > most {
            return viol(
                "memory",
                format!(
                    "{held} bytes held after {} cycles, {} at first; the station has {} modules with {ch} channels, \
                     at most {} bytes were unsent and {} unread at a time",
                    s.k,
                    s.held_first,
                    mods,
                    s.most_unsent,
                    s.most_unread
                ),
            );
        }
        Ok(())
    }

    pub fn nothing_held(&mut self) -> V<()> {
        if self.p != P::C18 {
            return Ok(());
        }
        let held = crate::mem::held();
        self.stats.checks += 1;
        if held > 512 {
            return viol("memory-left", format!("{held} bytes are left of a dropped coupler"));
        }
        Ok(())
    }

    fn cycle_in(
        &mut self,
        s: &mut Sess,
        inp: &InImg,
        out: &[u16],
        wf: Wf,
    ) -> V<Option<Vec<u16>>> {
        let lay = self.lay.clone();
        let n = lay.specs.len();
        ev!(self, "cycle in=[{}] out=[{}]", words(&inp.regs), words(out));
        self.flush_rep_requests(s)?;
        let before = (self.p == P::C09)
            .then(|| (s.coupler.inputs().clone(), s.coupler.outputs().clone()));
        let r = lib(|| s.coupler.next(&inp.regs, out));
        if self.p == P::C10 {
            self.stats.checks += 1;
        }
        let r = match r {
            Err(m) => {
                return viol("panic", format!("next: {m}; in=[{}] out=[{}]", words(&inp.regs), words(out)));
            }
            Ok(r) => r,
        };
        // replicas see every call
        for c in &mut s.reps {
            if let Some((l, u, rng)) = &mut s.noise {
                unrelated(l, u, rng)?;
            }
            let next = || c.next(&inp.regs, out);
            // its clock shows another time
            let skew = if self.k.clock > 0 { self.c.below(S::App, 1 << 22) } else { 0 };
            self.stats.faults[F::Skew as usize] += u64::from(skew > 0);
            crate::clock::skew(skew);
            let x = if self.c.chance(S::App, 60) {
                // the threads of an application may take turns
                self.stats.faults[F::Moved as usize] += 1;
                let keys = self.c.below(S::App, 1 << 32);
                lib_elsewhere(keys, next)
            } else {
                lib(next)
            };
            crate::clock::skew(0);
            let x = x.map_err(|m| Viol { class: "panic", msg: format!("next: {m}") })?;
            self.stats.checks += 1;
            match (&r, &x) {
                (Ok(a), Ok(b)) if a != b => {
                    return viol(
                        "replica-image",
                        format!("same history, images [{}] and [{}]", words(a), words(b)),
                    );
                }
                (Ok(_), Err(_)) | (Err(_), Ok(_)) => {
                    return viol("replica-result", format!("same history, {r:?} and {x:?}"));
                }
                _ => {}
            }
            for (what, a, b) in [
                ("inputs", s.coupler.inputs(), c.inputs()),
                ("outputs", s.coupler.outputs(), c.outputs()),
            ] {
                if let Err(e) = same_values(what, a, b) {
                    return viol("replica-values", format!("same history, {e}"));
                }
            }
        }
        if self.p == P::C14 {
            use std::fmt::Write;
            let mut f = FmtHash(self.stats.log_hash);
            let _ = write!(f, "{:?}{:?}{r:?}", s.coupler.inputs(), s.coupler.outputs());
            self.h(f.0);
        }
        self.hand_cycle(s, &inp.regs, out, wf, r.as_deref().ok())?;
        let img = match r {
            Err(e) => {
                self.fault(F::FailedCycle);
                self.h(0xE0);
                ev!(self, "cycle fails: {e:?} ({wf:?})");
                if wf == Wf::Good && s.intact {
                    if let Some(t) = &mut s.twin {
                        let x = lib(|| t.next(&inp.regs, out))
                            .map_err(|m| Viol { class: "panic", msg: format!("next: {m}") })?;
                        if x.is_ok() {
                            return viol(
                                "twin-result",
                                format!("with failed cycles before: {e:?}, without: {x:?}"),
                            );
                        }
                    }
                    let m = format!(
                        "well-formed exchange refused with {e:?}: in=[{}] out=[{}]",
                        words(&inp.regs),
                        words(out)
                    );
                    self.breaks(REFUSAL, "refused", m)?;
                    return Ok(None);
                }
                if let Some((i, o)) = before {
                    self.stats.checks += 1;
                    for (what, a, b) in
                        [("inputs", s.coupler.inputs(), &i), ("outputs", s.coupler.outputs(), &o)]
                    {
                        if let Err(e) = same_values(what, a, b) {
                            return viol("failed-cycle", format!("after a failed cycle: {e}"));
                        }
                    }
                }
                if self.p == P::C10 {
                    s.need_out = true;
                }
                return Ok(None);
            }
            Ok(i) => i,
        };
        if wf == Wf::Short && s.intact {
            if self.p == P::C09 {
                return viol(
                    "short-accepted",
                    format!(
                        "{} input and {} output registers accepted, {} and {} are mapped",
                        inp.regs.len(),
                        out.len(),
                        lay.in_words,
                        lay.out_words
                    ),
                );
            }
            self.end = true;
            return Ok(None);
        }
        for w in &img {
            self.h(u64::from(*w));
        }
        ev!(self, "  -> [{}]", words(&img));
        if self.p == P::C10 && (wf != Wf::Good || !s.intact) {
            s.k += 1;
            s.need_out = img.len() != lay.out_words;
            s.echo = Some(img.clone());
            return Ok(Some(img));
        }
        if img.len() != lay.out_words {
            let m = format!("image of {} registers returned, {} are mapped", img.len(), lay.out_words);
            self.breaks(IMAGE, "image-size", m)?;
            return Ok(None);
        }
        s.k += 1;
        // what the application sees now
        self.check_values(s, inp, out)?;
        for m in 0..n {
            if lay.specs[m].kind == Kind::Com {
                self.check_com(s, m, inp, out, &img)?;
            } else if lay.specs[m].kind.has_out() {
                self.check_out(s, m, out, &img)?;
            }
            self.state_code(s, m, inp, out);
        }
        s.pend.clear();
        if let Some(t) = &mut s.twin {
            let x = lib(|| t.next(&inp.regs, out))
                .map_err(|m| Viol { class: "panic", msg: format!("next: {m}") })?;
            self.stats.checks += 1;
            if x.as_ref() != Ok(&img) {
                return viol(
                    "twin-image",
                    format!(
                        "with failed cycles before: [{}], without: {}",
                        words(&img),
                        x.map_or_else(|e| format!("{e:?}"), |w| format!("[{}]", words(&w)))
                    ),
                );
            }
            for (what, a, b) in [
                ("inputs", s.coupler.inputs(), t.inputs()),
                ("outputs", s.coupler.outputs(), t.outputs()),
            ] {
                if let Err(e) = same_values(what, a, b) {
                    return viol("twin-values", format!("failed cycles changed {e}"));
                }
            }
        }
        if !s.singles.is_empty() {
            self.check_singles(s, inp, out, &img)?;
        }
        s.need_out = false;
        s.echo = Some(img.clone());
        s.last_in = Some(InImg { regs: inp.regs.clone(), shown: inp.shown.clone() });
        Ok(Some(img))
    }

    /// C08, C12 and C11: reported values against the reference reading of the images.
    fn check_values(&mut self, s: &mut Sess, inp: &InImg, out: &[u16]) -> V<()> {
        let lay = self.lay.clone();
        let n = lay.specs.len();
        let (do_in, do_out) =
            (matches!(self.p, P::C08 | P::C11), matches!(self.p, P::C12 | P::C11));
        if !do_in && !do_out {
            return Ok(());
        }
        let (i, o) = (s.coupler.inputs(), s.coupler.outputs());
        if i.len() != n || o.len() != n {
            return viol(
                "value-count",
                format!("{} inputs and {} outputs of {n} modules", i.len(), o.len()),
            );
        }
        for m in 0..n {
            let sp = &lay.specs[m];
            let none = || vec![RV::None; sp.kind.channels()];
            if do_in {
                let want = lay.in_b(m, &inp.regs).map_or_else(none, |b| sp.inputs(&b));
                self.stats.checks += want.len() as u64;
                let bad = want.len() != i[m].len()
                    || want.iter().zip(&i[m]).any(|(w, v)| !w.matches(v));
                if bad {
                    return viol(
                        "inputs",
                        format!(
                            "module {m} {} {:?} with input bytes {} reports {:?}, should be {want:?}",
                            sp.kind.name(),
                            sp.params,
                            lay.in_b(m, &inp.regs).map_or("-".into(), |b| hex(&b)),
                            i[m]
                        ),
                    );
                }
            }
            if do_out {
                let want = if sp.kind == Kind::Com {
                    let g = com_out(&lay.out_b(m, out).unwrap());
                    // what a previous master left behind is reported or not
                    if s.k == 1 {
                        continue;
                    }
                    if g.tx_cnt != s.last_t[m] && !g.data.is_empty() {
                        vec![RV::Bytes(g.data)]
                    } else {
                        vec![RV::None]
                    }
                } else {
                    lay.out_b(m, out).map_or_else(none, |b| sp.outputs(&b))
                };
                self.stats.checks += want.len() as u64;
                let bad = want.len() != o[m].len()
                    || want.iter().zip(&o[m]).any(|(w, v)| !w.matches(v));
                if bad {
                    return viol(
                        "outputs",
                        format!(
                            "module {m} {} {:?} with output bytes {} reports {:?}, should be {want:?}",
                            sp.kind.name(),
                            sp.params,
                            lay.out_b(m, out).map_or("-".into(), |b| hex(&b)),
                            o[m]
                        ),
                    );
                }
            }
        }
        if self.p == P::C11 {
            for m in 0..n {
                self.stats.checks += 1;
                let com = lay.specs[m].kind == Kind::Com;
                let (r, w) = (s.coupler.reader(m).is_some(), s.coupler.writer(m).is_some());
                if r != com || w != com {
                    return viol("serial-access", format!("module {m}: reader {r}, writer {w}"));
                }
            }
        }
        Ok(())
    }

    /// The serial protocol of module `m`, and the ledger of its bytes.
    fn check_com(
        &mut self,
        s: &mut Sess,
        m: usize,
        inp: &InImg,
        out: &[u16],
        img: &[u16],
    ) -> V<()> {
        let lay = self.lay.clone();
        let ib = lay.in_b(m, &inp.regs).unwrap();
        let (ob, gb) = (lay.out_b(m, out).unwrap(), lay.out_b(m, img).unwrap());
        let (i, o, g) = (com_in(&ib), com_out(&ob), com_out(&gb));
        let k = s.k;
        let cap = lay.specs[m].com_cap();
        let ctx = |e: String| {
            format!("serial module {m}, cycle {k}: {e}; input {}, given {}, returned {}", hex(&ib), hex(&ob), hex(&gb))
        };
        if let Some(Req::Bytes(b)) = s.pend.get(&(m, 0)) {
            self.ledgers[s.id as usize].queued[m].extend_from_slice(b);
        }
        s.last_t[m] = o.tx_cnt;
        if k >= 3 && i.da {
            if let Some(id) = inp.shown[m] {
                if id > s.seen[m] {
                    s.seen[m] = id;
                    s.avail[m].extend(i.data.iter());
                    self.stats.bytes_rx += i.data.len() as u64;
                }
            }
        }
        if usize::from(g.len) > cap && matches!(self.p, P::C01 | P::C03) {
            return viol("segment-size", ctx("segment too long".into()));
        }
        if self.p == P::C03 {
            self.stats.checks += 1;
            if g.rx_ack != i.rx_cnt {
                return viol("rx-ack", ctx(format!("acknowledges {}", g.rx_ack)));
            }
            if g.hold != o.hold {
                return viol("flags", ctx("changes the transmit lock".into()));
            }
            if k >= 3 {
                if (g.rx_flush, g.tx_flush, g.reset) != (o.rx_flush, o.tx_flush, o.reset) {
                    return viol("flags", ctx("changes control flags".into()));
                }
                let same = g.tx_cnt == o.tx_cnt && g.len == o.len && g.data == o.data;
                if i.tx_ack != o.tx_cnt {
                    if !same {
                        return viol("tx-altered", ctx("unacknowledged segment changes".into()));
                    }
                } else if !same && (g.tx_cnt != (o.tx_cnt + 1) & 3 || g.data.is_empty()) {
                    return viol("tx-number", ctx("wrong sequence number or empty segment".into()));
                }
            }
        }
        if self.p == P::C04 {
            self.stats.checks += 1;
            let want = match k {
                1 => Some((true, true, false)),
                2 => Some((false, false, true)),
                _ => None,
            };
            match want {
                Some(w) => {
                    if (g.rx_flush, g.tx_flush, g.reset) != w {
                        return viol("startup-flags", ctx("wrong startup flags".into()));
                    }
                    if g.len != 0 {
                        return viol("startup-data", ctx("data during startup".into()));
                    }
                    if g.tx_cnt != o.tx_cnt {
                        return viol("startup-count", ctx("startup changes the sequence number".into()));
                    }
                }
                None => {
                    if g.rx_flush || g.tx_flush {
                        return viol("late-flush", ctx("flush after startup".into()));
                    }
                }
            }
        }
        Ok(())
    }

    /// C06, C07, C13: output channels of a non-serial module.
    fn check_out(&mut self, s: &Sess, m: usize, out: &[u16], img: &[u16]) -> V<()> {
        if !matches!(self.p, P::C06 | P::C07 | P::C13) {
            return Ok(());
        }
        let lay = self.lay.clone();
        let sp = &lay.specs[m];
        let (ob, gb) = (lay.out_b(m, out).unwrap(), lay.out_b(m, img).unwrap());
        for ch in 0..sp.kind.channels() {
            let req = s.pend.get(&(m, ch));
            let due = match self.p {
                P::C07 => req.is_none(),
                P::C13 => req.is_some(),
                _ => true,
            };
            if !due {
                continue;
            }
            self.stats.checks += 1;
            if let Some(e) = check_out_channel(sp, ch, &ob, &gb, req) {
                return viol(
                    if req.is_some() { "request" } else { "hold" },
                    format!(
                        "module {m} {} {:?} channel {ch}: {e}; request {req:?}, given {}, returned {}",
                        sp.kind.name(),
                        sp.params,
                        hex(&ob),
                        hex(&gb)
                    ),
                );
            }
        }
        Ok(())
    }

    /// C05: every module against a coupler that has only this module.
    fn check_singles(&mut self, s: &mut Sess, inp: &InImg, out: &[u16], img: &[u16]) -> V<()> {
        let lay = self.lay.clone();
        for (m, one) in s.singles.iter_mut().enumerate() {
            let to_words = |b: Option<Vec<u8>>| -> Vec<u16> {
                let b = b.unwrap_or_default();
                let mut w = vec![0; b.len().div_ceil(2)];
                put(&mut w, 0, &b);
                w
            };
            let i = to_words(lay.in_b(m, &inp.regs));
            let o = to_words(lay.out_b(m, out));
            let r = lib(|| one.next(&i, &o))
                .map_err(|e| Viol { class: "panic", msg: format!("next: {e}") })?;
            self.stats.checks += 1;
            let name = lay.specs[m].kind.name();
            let g = match r {
                Ok(g) => g,
                Err(e) => {
                    return viol("alone-refused", format!("module {m} {name} alone refuses: {e:?}"));
                }
            };
            let want = lay.lay[m].out.map(|_| get(&g, 0, lay.specs[m].out_bytes()));
            let got = lay.out_b(m, img);
            if want != got {
                return viol(
                    "alone-image",
                    format!(
                        "module {m} {name} {:?} writes {}, alone {}",
                        lay.lay[m],
                        hex(&got.unwrap_or_default()),
                        hex(&want.unwrap_or_default())
                    ),
                );
            }
            let pick = |v: &Vec<Vec<CV>>, i: usize| v.get(i).cloned();
            for (what, a, b) in [
                ("inputs", pick(s.coupler.inputs(), m), pick(one.inputs(), 0)),
                ("outputs", pick(s.coupler.outputs(), m), pick(one.outputs(), 0)),
            ] {
                if a != b {
                    return viol(
                        "alone-values",
                        format!("module {m} {name} {:?} reports {what} {a:?}, alone {b:?}", lay.lay[m]),
                    );
                }
            }
        }
        Ok(())
    }

    fn state_code(&mut self, s: &Sess, m: usize, inp: &InImg, out: &[u16]) {
        let lay = &self.lay;
        let k = s.k.min(3) as u16;
        let rb = u16::from(self.k.readback);
        let odd = |p: Option<usize>| p.map_or(0, |x| (x % 2) as u16);
        let code = if lay.specs[m].kind == Kind::Com {
            let i = com_in(&lay.in_b(m, &inp.regs).unwrap());
            let o = com_out(&lay.out_b(m, out).unwrap());
            let l = &self.ledgers[s.id as usize];
            let q = u16::from(l.queued[m].len() > l.accepted[m]);
            let rx = u16::from(i.da) | u16::from(o.rx_ack != i.rx_cnt) << 1;
            k | u16::from(o.tx_cnt.wrapping_sub(i.tx_ack) & 3) << 2
                | u16::from(o.tx_cnt) << 4
                | rx << 6
                | u16::from(i.rx_cnt) << 8
                | q << 10
                | odd(lay.lay[m].inp) << 11
                | u16::from(o.len > 0) << 12
                | rb << 13
        } else {
            let kind = KINDS.iter().position(|x| *x == lay.specs[m].kind).unwrap() as u16;
            let pend = s.pend.keys().filter(|x| x.0 == m).count().min(3) as u16;
            0x8000
                | kind
                | odd(lay.lay[m].inp) << 5
                | odd(lay.lay[m].out) << 6
                | k << 7
                | pend << 9
                | rb << 11
        };
        self.stats.states[usize::from(code) / 64] |= 1 << (code % 64);
    }

    // ---- after the faults stopped -------------------------------------------

    fn calm_step(&mut self) -> V<()> {
        let progress = matches!(self.p, P::C01 | P::C02 | P::C04 | P::C13);
        if !progress {
            if self.calm_cycles >= 5 {
                self.end = true;
            }
            return Ok(());
        }
        let Some(s) = &self.sess else { return Ok(()) };
        let l = &self.ledgers[s.id as usize];
        let (mut tx, mut rx) = (None, None);
        for &m in &self.coms {
            let d = &self.st.coms[&m];
            if l.accepted[m] < l.queued[m].len() || d.pending.is_some() {
                tx = tx.or(Some(m));
            }
            if !d.rxq.is_empty() || d.presented.is_some() {
                rx = rx.or(Some(m));
            }
        }
        if self.p == P::C01 {
            rx = None;
        }
        if self.p == P::C02 {
            tx = None;
        }
        if s.k < 5 || tx.is_some() || rx.is_some() || !s.pend.is_empty() {
            let left: usize = self
                .coms
                .iter()
                .map(|m| {
                    let d = &self.st.coms[m];
                    let tx = l.queued[*m].len() - l.accepted[*m];
                    match self.p {
                        P::C01 => tx,
                        P::C02 => d.rxq.len(),
                        _ => tx + d.rxq.len(),
                    }
                })
                .sum();
            if self.moved.0 != left as u64 {
                self.moved = (left as u64, self.calm_cycles, self.now);
            }
            let stalled = self.calm_cycles > self.moved.1 + self.stall
                && self.now > self.moved.2 + self.stall_us;
            if stalled || self.calm_cycles > self.bound && self.now > self.bound_us {
                if let Some(m) = tx {
                    return viol(
                        "stuck-tx",
                        format!(
                            "serial module {m} took {} of {} bytes, no more for {} fault-free cycles",
                            l.accepted[m],
                            l.queued[m].len(),
                            self.calm_cycles
                        ),
                    );
                }
                if let Some(m) = rx {
                    return viol(
                        "stuck-rx",
                        format!(
                            "{} segments wait in serial module {m} after {} fault-free cycles",
                            self.st.coms[&m].rxq.len() + 1,
                            self.calm_cycles
                        ),
                    );
                }
                return viol("stuck", format!("not settled after {} cycles", self.calm_cycles));
            }
            return Ok(());
        }
        self.settled += 1;
        if self.settled < 3 {
            return Ok(());
        }
        self.end = true;
        for m in self.coms.clone() {
            loop {
                let n = self.do_read(m, 64)?;
                if n == 0 {
                    break;
                }
            }
            let s = self.sess.as_ref().unwrap();
            if !s.avail[m].is_empty() && self.p != P::C01 {
                return viol(
                    "rx-missing",
                    format!("{} received bytes of serial module {m} cannot be read", s.avail[m].len()),
                );
            }
        }
        Ok(())
    }
}
