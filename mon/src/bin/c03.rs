//! C03: header constructors and readers are inverse and follow the DLT v1 bit layout
use matchit::FromBytesReadableTrait;
use mon::ensure;
use mon::model::{msin, type_name};
use mon::rt::*;
use rapiddlt::dlt_v1::*;
use std::mem::{align_of, size_of};
use zerocopy::{AsBytes, FromBytes};

fn types() -> Vec<(DltMessageType, (u8, u8))> {
    use DltControlMessageTypeInfo::*;
    use DltLogMessageTypeInfo::*;
    use DltMessageType::*;
    use DltNetworkMessageTypeInfo::*;
    use DltTraceMessageTypeInfo::*;
    let mut v = vec![];
    for (i, t) in [DltLogFatal, DltLogDltError, DltLogWarn, DltLogInfo, DltLogDebug, DltLogVerbose].into_iter().enumerate() {
        v.push((DltTypeLog(t), (0, i as u8 + 1)));
    }
    for (i, t) in [DltTraceVariable, DltTraceFunctionIn, DltTraceFunctionOut, DltTraceState, DltTraceVfb].into_iter().enumerate() {
        v.push((DltTypeAppTrace(t), (1, i as u8 + 1)));
    }
    for (i, t) in [DltNwTraceIpc, DltNwTraceCan, DltNwTraceFlexray, DltNwTraceMost, DltNwTraceEthernet, DltNwTraceSomeip].into_iter().enumerate() {
        v.push((DltTypeNwTrace(t), (2, i as u8 + 1)));
    }
    for (i, t) in [DltControlRequest, DltControlResponse].into_iter().enumerate() {
        v.push((DltTypeControl(t), (3, i as u8 + 1)));
    }
    v
}

fn htyp(bits: u8, ver: u8) -> DltHTyp {
    DltHTyp::new(bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits & 8 != 0, bits & 16 != 0, ver)
}

fn layout(c: &mut Case) -> Res {
    ensure!(size_of::<DltStorageHeader>() == 16 && align_of::<DltStorageHeader>() == 1, "storage header: size {} align {}", size_of::<DltStorageHeader>(), align_of::<DltStorageHeader>());
    ensure!(size_of::<DltStandardHeader>() == 4 && align_of::<DltStandardHeader>() == 1, "standard header: size {}", size_of::<DltStandardHeader>());
    ensure!(size_of::<DltExtendedHeader>() == 10 && align_of::<DltExtendedHeader>() == 1, "extended header: size {}", size_of::<DltExtendedHeader>());
    ensure!(size_of::<MessageType>() == 1 && size_of::<DltHTyp>() == 1, "message info or header type is not a byte");
    // every header type
    for bits in 0..32u8 {
        for ver in 0..8u8 {
            let h = htyp(bits, ver);
            ensure!(h.as_bytes() == [bits | ver << 5], "flags {:#x} version {}: byte {:?}", bits, ver, h.as_bytes());
            let r = DltHTyp::ref_from(h.as_bytes()).unwrap();
            let g = (r.is_extended_header(), r.is_msb_first(), r.is_with_ecu_id(), r.is_with_session_id(), r.is_with_timestamp(), r.version());
            ensure!(g == (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits & 8 != 0, bits & 16 != 0, ver), "flags {:#x} version {} read back as {:?}", bits, ver, g);
            c.judged(Some(1 << 32 | (bits as u64) << 8 | ver as u64));
            c.ev("header types", 1);
        }
    }
    // every message info byte
    for m in 0..=255u8 {
        let b = [m];
        let t = MessageType::ref_from(&b).unwrap();
        let (v, w) = msin(m);
        let i = t.info();
        ensure!(i.0 == v && t.is_verbose() == v, "message info {:#04x}: verbose {:?}", m, i.0);
        let s = i.1.map(|t| format!("{:?}", t));
        ensure!(s == w.map(type_name) && i.1 == t.message_type(), "message info {:#04x} decodes to {:?} instead of {:?}", m, s, w);
        c.judged(Some(2 << 32 | m as u64));
        c.ev("message info bytes", 1);
    }
    // every message type
    for (t, (mstp, mtin)) in types() {
        for v in [false, true] {
            let m = MessageType::create_message_type(v, t);
            let want = v as u8 | mstp << 1 | mtin << 4;
            ensure!(m.as_bytes() == [want], "{:?} verbose {} encodes to {:?} instead of {:#04x}", t, v, m.as_bytes(), want);
            ensure!(m.info() == (v, Some(t)), "{:?} verbose {} decodes to {:?}", t, v, m.info());
            let back = MessageType::ref_from(m.as_bytes()).unwrap();
            ensure!(*back == m && back.info() == (v, Some(t)), "{:?} does not survive its bytes", t);
            c.judged(Some(3 << 32 | want as u64));
            c.ev("message types", 1);
        }
    }
    Ok(())
}

/// a block of 1024 length values
fn lengths(c: &mut Case, block: u32) -> Res {
    for l in block * 1024..(block + 1) * 1024 {
        let (bits, ver, mc) = (c.rng.u8() & 31, c.rng.u8() & 7, if l < 256 { l as u8 } else { c.rng.u8() });
        let h = DltStandardHeader::new(htyp(bits, ver), mc, l as u16);
        let want = [bits | ver << 5, mc, (l >> 8) as u8, l as u8];
        ensure!(h.as_bytes() == want, "standard header bytes {:?} instead of {:?}", h.as_bytes(), want);
        ensure!(h.length() == l as usize, "length {} reads as {}", l, h.length());
        let r = DltStandardHeader::ref_from(&want[..]).unwrap();
        ensure!(r.length() == l as usize && r.header_type.version() == ver, "length {} reads back as {}", l, r.length());
        c.judged(Some(4 << 32 | l as u64));
        c.ev("length values", 1);
    }
    Ok(())
}

fn whole(c: &mut Case) -> Res {
    let ts = types();
    for _ in 0..20 {
        let r = &mut c.rng;
        let (secs, us) = (r.edgy_u32(), r.edgy_u32() as i32);
        let pat = if r.pct(80) { *b"DLT\x01" } else { [r.u8(), r.u8(), r.u8(), r.u8()] };
        let q = |r: &mut mon::rng::Rng| [r.u8(), r.u8(), r.u8(), r.u8()];
        let (ecu, apid, ctid) = (q(r), q(r), q(r));
        let (bits, ver, mc, noar) = (r.u8() & 31, r.u8() & 7, r.u8(), r.u8());
        let (t, _) = ts[r.below(ts.len())];
        let v = r.pct(50);
        let (id, seid, tm) = (r.edgy_u32(), r.edgy_u32(), r.edgy_u32());
        let np = r.below(80);
        let payload = r.bytes(np);

        let sh = DltStorageHeader::new(pat, secs, us, ecu);
        let mut want = pat.to_vec();
        want.extend(secs.to_le_bytes());
        want.extend(us.to_le_bytes());
        want.extend(ecu);
        ensure!(sh.as_bytes() == want, "storage header bytes {:?} instead of {:?}", sh.as_bytes(), want);
        let back = DltStorageHeader::ref_from(&want[..]).unwrap();
        ensure!(back.pattern == pat && back.secs.get() == secs && back.msecs.get() == us && back.ecu == ecu, "storage header reads back as {:?}", back);

        let eh = DltExtendedHeader::new(MessageType::create_message_type(v, t), noar, apid, ctid);
        let mut we = MessageType::create_message_type(v, t).as_bytes().to_vec();
        we.push(noar);
        we.extend(apid);
        we.extend(ctid);
        ensure!(eh.as_bytes() == we, "extended header bytes {:?} instead of {:?}", eh.as_bytes(), we);
        let back = DltExtendedHeader::ref_from(&we[..]).unwrap();
        ensure!(back.msin.info() == (v, Some(t)) && back.noar == noar && back.apid == apid && back.ctid == ctid, "extended header reads back as {:?}", back);

        // a whole message through its bytes
        let mut m = vec![];
        m.extend(DltStorageHeader::new(*b"DLT\x01", secs, us, ecu).as_bytes());
        let mut body = vec![];
        if bits & 4 != 0 {
            body.extend(id.to_be_bytes());
        }
        if bits & 8 != 0 {
            body.extend(seid.to_be_bytes());
        }
        if bits & 16 != 0 {
            body.extend(tm.to_be_bytes());
        }
        if bits & 1 != 0 {
            body.extend(eh.as_bytes());
        }
        body.extend(&payload);
        let h = DltStandardHeader::new(htyp(bits, ver), mc, 4 + body.len() as u16);
        m.extend(h.as_bytes());
        m.extend(&body);
        c.input(&m);
        let Some((n, e)) = DltStorageEntry::try_read(&m) else { return Err("a message built by the library is not read".into()) };
        ensure!(n == m.len() && e.len() == n, "size {} instead of {}", n, m.len());
        let s = e.storage_header;
        ensure!(s.secs.get() == secs && s.msecs.get() == us && s.ecu == ecu, "storage header of the message {:?}", s);
        ensure!(e.dlt.header.as_bytes()[1] == mc, "message counter {} instead of {}", e.dlt.header.as_bytes()[1], mc);
        ensure!(e.dlt.ecu_id() == (bits & 4 != 0).then_some(id), "ecu id {:?}", e.dlt.ecu_id());
        ensure!(e.dlt.timestamp() == (bits & 16 != 0).then_some(tm), "timestamp {:?} instead of {}", e.dlt.timestamp(), tm);
        let x = e.dlt.extended_header();
        ensure!(x.is_some() == (bits & 1 != 0), "extended header {:?}", x);
        if let Some(x) = x {
            ensure!(x.as_bytes() == eh.as_bytes() && x.msin.info() == (v, Some(t)), "extended header {:?} instead of {:?}", x, eh);
        }
        ensure!(e.dlt.payload() == Some(&payload[..]), "payload {:?}", e.dlt.payload().map(|p| p.len()));
        c.ev("whole messages", 1);
        c.judged(Some(mon::rng::fnv(&m)));
        c.sample(|| hexs(&m, 100));
    }
    Ok(())
}

fn main() {
    run("C03", (65 + 200_000, 65 + 6_000_000), |c| match c.n {
        0 => layout(c),
        1..=64 => lengths(c, c.n as u32 - 1),
        _ => whole(c),
    })
}
