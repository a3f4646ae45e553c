// Operations of the simulated application (part of world.rs).

/// The ways of writing that `std::io::Write` offers.
fn write_how(w: &mut dyn Write, data: &[u8], how: u64) -> Result<usize, String> {
    let e = |e: std::io::Error| e.to_string();
    match how {
        8 => {
            let (a, b) = data.split_at(data.len() / 3);
            let v = [IoSlice::new(a), IoSlice::new(&[]), IoSlice::new(b)];
            w.write_vectored(&v).map_err(e)
        }
        9 => w.write_all(data).map(|()| data.len()).map_err(e),
        10 => w.write_fmt(format_args!("")).and_then(|()| w.write_all(data)).and_then(|()| w.flush()).map(|()| data.len()).map_err(e),
        11 => std::io::copy(&mut &*data, w).map(|n| n as usize).map_err(e),
        _ => w.flush().and_then(|()| w.write(data)).map_err(e),
    }
}

/// The ways of reading up to `n` bytes (or all of them) that `std::io::Read` offers.
fn read_how(r: &mut dyn Read, n: usize, how: u64) -> Result<Vec<u8>, String> {
    let e = |e: std::io::Error| e.to_string();
    let mut buf = vec![];
    match how {
        8 => {
            // appended to what is there already
            buf = b"abc".to_vec();
            let k = r.read_to_end(&mut buf).map_err(e)?;
            if !buf.starts_with(b"abc") || buf.len() != k + 3 {
                return Err(format!("{k} bytes appended to \"abc\" give {buf:?}"));
            }
            buf.drain(..3);
            k
        }
        9 => std::io::copy(r, &mut buf).map_err(e)? as usize,
        10 => r.take(n as u64).read_to_end(&mut buf).map_err(e)?,
        11 => {
            // one after the other, until there is room or there are bytes no more
            buf = vec![0xEE; n];
            let mut k = 0;
            while k < n {
                let (a, b) = buf[k..].split_at_mut((n - k) / 2);
                let v = &mut [IoSliceMut::new(a), IoSliceMut::new(b)];
                match r.read_vectored(v).map_err(e)? {
                    0 => break,
                    x if x <= n - k => k += x,
                    x => return Err(format!("{x} bytes in a buffer of {}", n - k)),
                }
            }
            buf.truncate(k);
            k
        }
        _ => {
            buf = vec![0xEE; n];
            match r.read(&mut buf).map_err(e)? {
                k if k <= n => buf.truncate(k),
                k => return Err(format!("{k} bytes in a buffer of {n}")),
            }
            n
        }
    };
    Ok(buf)
}

impl World {
    fn ev_app(&mut self) -> V<()> {
        if self.calm {
            return Ok(());
        }
        // no choice: the longest time
        let d = 2 * self.k.app_us - self.c.below(S::App, 2 * self.k.app_us);
        self.at(d, Ev::App);
        if self.sess.is_none() {
            return Ok(());
        }
        let w = [self.k.w_set, self.k.w_bad, self.k.w_write, self.k.w_bytes, self.k.w_read];
        let total: u32 = w.iter().sum();
        if total == 0 {
            return Ok(());
        }
        let mut x = self.c.below(S::App, u64::from(total)) as u32;
        let mut op = 0;
        while x >= w[op] {
            x -= w[op];
            op += 1;
        }
        let burst = if self.c.chance(S::App, 150) { 1 + self.c.usize(S::App, 6) } else { 1 };
        for _ in 0..burst {
            match op {
                0 => self.op_set()?,
                1 => self.op_bad()?,
                2 => self.op_write()?,
                3 => self.op_bytes()?,
                _ => self.op_read()?,
            }
        }
        Ok(())
    }

    fn com(&mut self) -> Option<usize> {
        if self.coms.is_empty() {
            return None;
        }
        let n = self.coms.len();
        Some(self.coms[self.c.usize(S::App, n)])
    }

    /// The next bytes this session would queue for module `m`.
    fn payload(&mut self, m: usize) -> Vec<u8> {
        let s = self.sess.as_ref().unwrap();
        let l = &self.ledgers[s.id as usize];
        // a full queue is the application's business
        if l.queued[m].len() - l.accepted[m] > self.k.qcap {
            return vec![];
        }
        let backlog = (l.queued[m].len() - l.accepted[m]) as u64;
        self.stats.largest_backlog = self.stats.largest_backlog.max(backlog);
        let mut n = self.c.below(S::App, self.k.wmax + 1) as usize;
        if self.k.wmax > 65_536 && self.c.chance(S::App, 250) {
            n = self.c.pick(S::App, &[65_536, 65_537, 65_535, 70_000]);
        } else if self.k.wmax > 400_000 {
            // segments of six bytes: about 65536 of them, or a few
            n = match self.c.below(S::App, 3) {
                0 => n % 60,
                _ => 393_000 + n % 1000,
            };
        }
        let at = l.queued[m].len() as u64;
        let seed = u64::from(s.id) << 40 ^ (m as u64) << 32 ^ at;
        match self.c.below(S::App, 8) {
            // repetitive data hides duplicates, but has its own pitfalls
            1 => vec![self.c.below(S::App, 256) as u8; n],
            2 => rx_bytes(m as u64, n),
            _ => rx_bytes(seed ^ 0xABCD_0000_0000_0000, n),
        }
    }

    fn op_write(&mut self) -> V<()> {
        let Some(m) = self.com() else { return Ok(()) };
        let data = self.payload(m);
        let mut s = self.sess.take().unwrap();
        let r = self.write_in(&mut s, m, &data);
        self.sess = Some(s);
        r
    }
    fn write_in(&mut self, s: &mut Sess, m: usize, data: &[u8]) -> V<()> {
        let w = |c: &mut Coupler, m: usize, how: u64| -> V<Result<usize, String>> {
            lib(|| match c.writer(m) {
                None => Err("no writer".to_string()),
                Some(w) => write_how(w, data, how),
            })
            .map_err(|e| Viol { class: "panic", msg: format!("write: {e}") })
        };
        let how = self.c.below(S::App, 12);
        let r = w(&mut s.coupler, m, how)?;
        ev!(self, "application writes {} to module {m}: {r:?}", hex(data));
        self.h(data.len() as u64 ^ 0x5700);
        match &r {
            Ok(n) if *n <= data.len() && (*n > 0 || data.is_empty()) => {
                self.ledgers[s.id as usize].queued[m].extend_from_slice(&data[..*n]);
            }
            x => {
                if matches!(self.p, P::C01 | P::C13) {
                    return viol("write-refused", format!("write of {} bytes: {x:?}", data.len()));
                }
            }
        }
        if let Some(t) = &mut s.twin {
            let _ = w(t, m, how)?;
        }
        for t in &mut s.reps {
            let _ = w(t, m, how)?;
        }
        if let Some(t) = s.singles.get_mut(m) {
            let _ = w(t, 0, how)?;
        }
        if let Some(p) = s.hand.as_mut().and_then(|h| h.procs.get_mut(&m)) {
            let x = lib(|| write_how(p, data, how))
                .map_err(|e| Viol { class: "panic", msg: format!("write: {e}") })?;
            self.stats.checks += 1;
            if x != r {
                return viol("hand-write", format!("module {m}: {x:?} by hand, coupler {r:?}"));
            }
        }
        Ok(())
    }

    fn op_bytes(&mut self) -> V<()> {
        let Some(m) = self.com() else { return Ok(()) };
        let data = self.payload(m);
        self.request(Address { module: m, channel: 0 }, Req::Bytes(data))
    }

    fn op_read(&mut self) -> V<()> {
        if self.c.chance(S::App, 100) {
            // only serial modules offer a reader or writer
            let n = self.lay.specs.len();
            let m = self.c.usize(S::App, n + 2);
            let com = m < n && self.lay.specs[m].kind == Kind::Com;
            let s = self.sess.as_mut().unwrap();
            let (r, w) = (s.coupler.reader(m).is_some(), s.coupler.writer(m).is_some());
            if self.p == P::C02 && s.intact && (r != com || w != com) {
                return viol("serial-access", format!("module {m}: reader {r}, writer {w}"));
            }
            return Ok(());
        }
        let Some(m) = self.com() else { return Ok(()) };
        let mut n = self.c.below(S::App, self.k.rmax + 1) as usize;
        if self.k.leave > 0 {
            n = n.min(self.sess.as_ref().unwrap().avail[m].len().saturating_sub(self.k.leave));
        }
        self.do_read(m, n).map(|_| ())
    }

    fn do_read(&mut self, m: usize, n: usize) -> V<usize> {
        let mut s = self.sess.take().unwrap();
        let r = self.read_in(&mut s, m, n);
        self.sess = Some(s);
        r
    }
    fn read_in(&mut self, s: &mut Sess, m: usize, n: usize) -> V<usize> {
        let how = match self.c.below(S::App, 12) {
            8 | 9 if self.k.leave > 0 && !self.calm => 10,
            x => x,
        };
        let rd = |c: &mut Coupler, m: usize| -> V<Result<Vec<u8>, String>> {
            lib(|| match c.reader(m) {
                None => Err("no reader".to_string()),
                Some(r) => read_how(r, n, how),
            })
            .map_err(|e| Viol { class: "panic", msg: format!("read: {e}") })
        };
        let r = rd(&mut s.coupler, m)?;
        ev!(self, "application reads up to {n} from module {m}: {}", read_text(&r));
        let mut others: Vec<(&'static str, &mut Coupler, usize)> = vec![];
        if let Some(t) = &mut s.twin {
            others.push(("twin-read", t, m));
        }
        for t in &mut s.reps {
            others.push(("replica-read", t, m));
        }
        if let Some(t) = s.singles.get_mut(m) {
            others.push(("alone-read", t, 0));
        }
        for (class, t, i) in others {
            let x = rd(t, i)?;
            self.stats.checks += 1;
            if x != r {
                return viol(class, format!("read from module {m}: {} and {}", read_text(&r), read_text(&x)));
            }
        }
        if let Some(p) = s.hand.as_mut().and_then(|h| h.procs.get_mut(&m)) {
            let x = lib(|| read_how(p, n, how))
            .map_err(|e| Viol { class: "panic", msg: format!("read: {e}") })?;
            self.stats.checks += 1;
            if x != r {
                return viol(
                    "hand-read",
                    format!("module {m}: {} by hand, coupler {}", read_text(&x), read_text(&r)),
                );
            }
        }
        let got = r.clone().unwrap_or_default();
        self.h(got.len() as u64 ^ 0x5200);
        let take = match how {
            // everything there is
            8 | 9 => s.avail[m].len(),
            _ => n.min(s.avail[m].len()),
        };
        let want: Vec<u8> = s.avail[m].drain(..take).collect();
        if matches!(self.p, P::C02 | P::C04 | P::C13) {
            self.stats.checks += 1;
            if r.as_ref() != Ok(&want) {
                return viol(
                    "rx-stream",
                    format!(
                        "read of {n} bytes from serial module {m}: {} instead of {}",
                        read_text(&r),
                        hex(&want)
                    ),
                );
            }
        }
        Ok(got.len())
    }

    fn op_set(&mut self) -> V<()> {
        if self.foreign_mods.is_empty() {
            return self.op_bytes();
        }
        let n = self.foreign_mods.len();
        let m = self.foreign_mods[self.c.usize(S::App, n)];
        let sp = self.lay.specs[m].clone();
        let ch = self.c.usize(S::App, sp.kind.channels());
        let a = S::App;
        let req = if self.c.chance(a, 40) {
            Req::Disabled
        } else {
            match sp.kind {
                Kind::Ao | Kind::AoDiag => Req::Dec(self.analog(&sp, ch)),
                Kind::Fcnt => {
                    let us = gen_us(&mut self.c, a);
                    Req::F(us, self.c.below(a, 3) as u8)
                }
                _ => Req::Bit(self.c.chance(a, 500)),
            }
        };
        self.request(Address { module: m, channel: ch }, req)
    }

    fn analog(&mut self, sp: &Spec, ch: usize) -> f32 {
        let a = S::App;
        match self.c.below(a, 6) {
            0 => self.c.pick(
                a,
                &[
                    0.0f32,
                    10.0,
                    -10.0,
                    20.0,
                    4.0,
                    5.0,
                    1.0,
                    2.0,
                    1e9,
                    -1e9,
                    f32::INFINITY,
                    f32::NEG_INFINITY,
                    f32::NAN,
                    1e-7,
                    f32::MIN_POSITIVE,
                    23.7,
                    -23.7,
                ],
            ),
            1 => (self.c.below(a, 400_001) as f32 - 200_000.0) / 10_000.0,
            _ => {
                // near the value of some raw step of this channel
                let (r, f) = sp.out_range(ch);
                let raw = self.c.raw16(a);
                let frac = self.c.below(a, 9) as f64 / 8.0 - 0.5;
                match ui_val(raw, r, f) {
                    RV::Dec(v, tol) => (v + frac * tol * 20.0) as f32,
                    _ => f32::from(raw as i16) / 1000.0,
                }
            }
        }
    }

    /// A request that must be accepted.
    fn request(&mut self, addr: Address, req: Req) -> V<()> {
        let mut s = self.sess.take().unwrap();
        let r = self.request_in(&mut s, addr, req);
        self.sess = Some(s);
        r
    }
    fn request_in(&mut self, s: &mut Sess, addr: Address, req: Req) -> V<()> {
        self.stats.requests += 1;
        let ok = self.set_all(s, addr, req.value())?;
        ev!(self, "application requests {addr:?} = {req:?}: accepted {ok}");
        if ok {
            s.pend.insert((addr.module, addr.channel), req);
        } else if s.intact {
            if matches!(self.p, P::C06 | P::C13) {
                return viol("request-refused", format!("{addr:?} = {req:?} is refused"));
            }
            // the run would go on with a model that is out of step
            self.end = true;
        }
        Ok(())
    }

    /// Make a request of the coupler and everything that is compared with it.
    fn set_all(&mut self, s: &mut Sess, addr: Address, v: CV) -> V<bool> {
        fn set(c: &mut Coupler, a: &Address, v: &CV) -> V<bool> {
            lib(|| c.set_output(a, v.clone()).is_ok())
                .map_err(|e| Viol { class: "panic", msg: format!("set_output: {e}") })
        }
        let r = set(&mut s.coupler, &addr, &v)?;
        self.h(u64::from(r) ^ (addr.module as u64) << 8 ^ (addr.channel as u64) << 32);
        if let Some(t) = &mut s.twin {
            let x = set(t, &addr, &v)?;
            if x != r {
                return viol("twin-request", format!("{addr:?} = {v:?} accepted: {r} and {x}"));
            }
        }
        if let Some(t) = s.singles.get_mut(addr.module) {
            let x = set(t, &Address { module: 0, channel: addr.channel }, &v)?;
            if x != r {
                return viol("alone-request", format!("{addr:?} = {v:?} accepted: {r}, alone {x}"));
            }
        }
        if !s.reps.is_empty() {
            s.rep_reqs.push((addr, v, r));
        }
        Ok(r)
    }

    /// Replicas get the requests since the last cycle in another order.
    fn flush_rep_requests(&mut self, s: &mut Sess) -> V<()> {
        if s.rep_reqs.is_empty() {
            return Ok(());
        }
        let reqs = std::mem::take(&mut s.rep_reqs);
        for (i, c) in s.reps.iter_mut().enumerate() {
            let salt = if i == 0 { 0 } else { 1 + self.c.below(S::App, 1 << 20) };
            let mut v: Vec<&(Address, CV, bool)> = reqs.iter().collect();
            // same channel: original order; different channels: any
            match salt {
                0 => v.sort_by_key(|(a, ..)| std::cmp::Reverse((a.module, a.channel))),
                _ => v.sort_by_key(|(a, ..)| mix(a.module as u64 ^ (a.channel as u64) << 20 ^ salt << 40)),
            }
            for (a, val, ok) in v {
                let x = lib(|| c.set_output(a, val.clone()).is_ok())
                    .map_err(|e| Viol { class: "panic", msg: format!("set_output: {e}") })?;
                self.stats.checks += 1;
                if x != *ok {
                    return viol("replica-request", format!("{a:?} = {val:?} accepted: {ok} and {x}"));
                }
            }
        }
        Ok(())
    }

    /// A request that must not have any effect.
    fn op_bad(&mut self) -> V<()> {
        if self.p == P::C17 && self.c.chance(S::App, 700) {
            return self.op_hand();
        }
        let a = S::App;
        let n = self.lay.specs.len();
        let m = self.c.usize(a, n);
        let kind = self.lay.specs[m].kind;
        let v = self.any_value();
        let bad_addr = self.c.chance(a, 400);
        let (m, ch) = if bad_addr {
            match self.c.below(a, 5) {
                0 => (m, kind.channels()),
                1 => (n, 0),
                2 => (usize::MAX, usize::MAX),
                3 => (m, usize::MAX),
                _ => (n + self.c.usize(a, 300), self.c.usize(a, 4)),
            }
        } else if kind.channels() == 0 {
            return Ok(());
        } else {
            (m, self.c.usize(a, kind.channels()))
        };
        let addr = Address { module: m, channel: ch };
        if !bad_addr && kind.has_out() {
            // would an output of this kind take it?
            let takes = match (&v, kind) {
                (CV::Bit(_), k) if k.is_bits_out() => true,
                (CV::Decimal32(_), Kind::Ao | Kind::AoDiag) => true,
                (CV::FcntOut(o), Kind::Fcnt) => o.duration <= Duration::from_micros(FCNT_MAX_US),
                (CV::Bytes(_), Kind::Com) => true,
                (CV::Disabled, k) => k != Kind::Com,
                _ => false,
            };
            if takes {
                let req = match v {
                    CV::Bit(b) => Req::Bit(b),
                    CV::Decimal32(d) => Req::Dec(d),
                    CV::FcntOut(_) => Req::F(FCNT_MAX_US, 1),
                    CV::Bytes(b) => Req::Bytes(b),
                    _ => Req::Disabled,
                };
                return self.request(addr, req);
            }
        } else if !bad_addr {
            // a channel without output: whatever is answered, nothing may change
            let mut s = self.sess.take().unwrap();
            let r = self.set_all(&mut s, addr, v);
            self.sess = Some(s);
            return r.map(|_| ());
        }
        let mut s = self.sess.take().unwrap();
        let r = self.set_all(&mut s, addr, v.clone());
        let intact = s.intact;
        self.sess = Some(s);
        let ok = r?;
        ev!(self, "application requests {addr:?} = {v:?}: accepted {ok}");
        if !ok {
            self.fault(F::Refused);
        }
        if self.p == P::C06 {
            self.stats.checks += 1;
            if ok && intact {
                return viol("bad-request", format!("{addr:?} = {v:?} is accepted"));
            }
        }
        Ok(())
    }
}
