SPECS = []
def S(id, prop, needs, breaks, edits, demo, **k):
    SPECS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
DEC, ENC, REC, PKT, NAME = "src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs", "src/packet.rs", "src/name.rs"
SVC, ADV, DIS, RES, TAP = "src/service.rs", "src/service/advertising.rs", "src/service/discovery.rs", "src/resolver.rs", "src/tap.rs"
AADV, ADIS, ARES = "uwuhi-async/src/service/advertising.rs", "uwuhi-async/src/service/discovery.rs", "uwuhi-async/src/resolver.rs"

# ---------------------------------------------------------------- C01
S("c01-rdlength-past-end", "C01", "a record whose RDLENGTH reaches past the end of the message, but is less than the length of the whole message",
  "decoding panics (slice out of range) instead of returning an error",
  [(DEC, "if self.buf().len() >= len {", "if self.full_buf.len() >= len {")],
  r'''
fn main() {
    let mut m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 99, 1, 1, &[1, 2, 3, 4])]);
    let n = m.len();
    m.truncate(n - 2);
    let dec = MessageDecoder::new(&m).unwrap();
    let mut dec = dec.answers().unwrap();
    let r = dec.next();
    assert!(matches!(r, Some(Err(uwuhi::Error::Eof))));
}
''')
S("c01-error-not-sticky", "C01", "a record with a reserved label type, walked by code that goes on after an error",
  "the decoder reports the same error forever, so that walking a section does not end (and the discovery client hangs)",
  [(DEC, """            Ok(q) => q,
            Err(e) => {
                self.has_errored = true;
                return Some(Err(e));
            }
        };

        *self.remaining() -= 1;

        Some(Ok(rr))""", """            Ok(q) => q,
            Err(e) => {
                // There is nothing left to read once the end has been reached.
                self.has_errored = e != Error::InvalidValue;
                return Some(Err(e));
            }
        };

        *self.remaining() -= 1;

        Some(Ok(rr))""")],
  r'''
fn main() {
    limit(20);
    let m = msg(1, 0x8000, [0, 3, 0, 0], &[rr(&[0x80, 0], 1, 1, 1, &[1, 2, 3, 4])]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let n = dec.iter().take(50).count();
    assert_eq!(n, 1);
}
''')
# ---------------------------------------------------------------- C02
S("c02-ttl-msb", "C02", "a record with a TTL of 2^31 or more", "such TTLs are read as 0",
  [(DEC, "let ttl = self.read_u32()?;\n", "// RFC 2181: a TTL with the most significant bit set is to be treated as zero.\n        let ttl = u32::try_from(self.read_u32()? as i32).unwrap_or(0);\n")],
  r'''
fn main() {
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 0x8000_0001, &[1, 2, 3, 4])]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    assert_eq!(dec.next().unwrap().unwrap().ttl(), 0x8000_0001);
}
''')
S("c02-skip-many-answers", "C02", "moving past an answer section of more than 255 records that have not been read",
  "the records of the following sections are read from the wrong place: answers are reported as authority records",
  [(DEC, """    /// Skips the remaining entries in the *Answer* section, and advances the decoder to the
    /// *Additional Records* section.
    pub fn authority(mut self) -> Result<MessageDecoder<'a, section::Authority>, Error> {
        while let Some(res) = self.next() {
            res?;
        }
""", """    /// Skips the remaining entries in the *Answer* section, and advances the decoder to the
    /// *Additional Records* section.
    pub fn authority(mut self) -> Result<MessageDecoder<'a, section::Authority>, Error> {
        for _ in 0..self.ans_remaining as u8 {
            match self.next_rr() {
                Some(res) => drop(res?),
                None => break,
            }
        }
""")],
  r'''
fn main() {
    let mut parts: Vec<Vec<u8>> = (0..300).map(|i| rr(&wire("a"), 1, 1, i, &[1, 2, 3, 4])).collect();
    parts.push(rr(&wire("z"), 1, 1, 777, &[1, 2, 3, 4]));
    let m = msg(1, 0x8000, [0, 300, 1, 0], &parts);
    let mut dec = MessageDecoder::new(&m).unwrap().authority().unwrap();
    assert_eq!(dec.next().unwrap().unwrap().ttl(), 777);
}
''')
# ---------------------------------------------------------------- C03
S("c03-pointer-mask", "C03", "a name compressed with a pointer to offset 8192 or beyond", "the pointer's top bit is dropped and another part of the message is read as the name",
  [(DEC, "                        copy.pos = ptr.into();", "                        // Fits into 13 bits.\n                        copy.pos = (ptr & 0x1fff).into();")],
  r'''
fn main() {
    let mut parts = vec![rr(&wire("aa"), 99, 1, 1, &vec![0u8; 9000])];
    let off = 12 + parts[0].len();
    parts.push(rr(&wire("target.example"), 1, 1, 1, &[1, 2, 3, 4]));
    parts.push(rr(&(0xc000u16 | off as u16).to_be_bytes(), 1, 1, 1, &[1, 2, 3, 4]));
    let m = msg(1, 0x8000, [0, 3, 0, 0], &parts);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let names: Vec<String> = dec.iter().map(|r| r.unwrap().name().to_string()).collect();
    assert_eq!(names, ["aa.", "target.example.", "target.example."]);
}
''')
S("c03-pointer-limit", "C03", "a name that goes through more than 10 compression pointers", "a valid name is rejected as a pointer loop",
  [(DEC, "        let mut domain_name = DomainName::ROOT;\n        let mut min_pos", "        let mut domain_name = DomainName::ROOT;\n        let mut hops = 0u8;\n        let mut min_pos"),
   (DEC, "                    if ptr >= min_pos {", "                    hops += 1;\n                    if ptr >= min_pos || hops > 10 {")],
  r'''
fn main() {
    // x0. , x1.<ptr>, x2.<ptr>, ...
    let mut m = head(1, 0x8000, [0, 14, 0, 0]);
    let mut last: Option<usize> = None;
    for i in 0..14u8 {
        let at = m.len();
        let mut n = vec![1, b'a' + i];
        match last {
            None => n.push(0),
            Some(p) => n.extend_from_slice(&(0xc000u16 | p as u16).to_be_bytes()),
        }
        m.extend_from_slice(&rr(&n, 1, 1, 1, &[1, 2, 3, 4]));
        last = Some(at);
    }
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let names: Vec<String> = dec.iter().map(|r| r.expect("valid").name().to_string()).collect();
    assert_eq!(names[13], "n.m.l.k.j.i.h.g.f.e.d.c.b.a.");
}
''')
# ---------------------------------------------------------------- C04
S("c04-dirty-root", "C04", "encoding into a buffer that was used before", "the root label at the end of names is not written, what was in the buffer before is taken as a label",
  [(ENC, """        // Implicit root label at the end.
        self.write_u8(0);""", """        // Implicit root label at the end.
        if self.pos < self.buf.len() {
            self.pos += 1;
        } else {
            self.trunc = true;
        }""")],
  r'''
fn main() {
    let mut buf = [7u8; 100];
    let n = d("a.b");
    let mut enc = MessageEncoder::new(&mut buf);
    enc.question(encoder::Question::new(&n));
    let len = enc.finish().unwrap();
    let mut dec = MessageDecoder::new(&buf[..len]).unwrap();
    assert_eq!(dec.next().unwrap().unwrap().qname(), &n);
}
''')
S("c04-srv-swap", "C04", "an SRV record with different priority and weight, exchanged with another implementation (encoder and decoder agree with each other)",
  "priority and weight are in the wrong order on the wire",
  [(REC, "        enc.w.write_u16(self.priority);\n        enc.w.write_u16(self.weight);", "        enc.w.write_u16(self.weight);\n        enc.w.write_u16(self.priority);"),
   (REC, "            priority: dec.r.read_u16()?,\n            weight: dec.r.read_u16()?,", "            weight: dec.r.read_u16()?,\n            priority: dec.r.read_u16()?,")],
  r'''
fn main() {
    let mut buf = [0u8; 200];
    let n = d("a.b");
    let rec = Record::SRV(SRV::new(1, 2, 3, &n));
    let mut enc = MessageEncoder::new(&mut buf).answers();
    enc.add_answer(encoder::ResourceRecord::new(&n, &rec));
    let len = enc.finish().unwrap();
    assert_eq!(&buf[12..len], &rr(&wire("a.b"), 33, 1, 0, &[&[0, 1, 0, 2, 0, 3][..], &wire("a.b")].concat())[..]);
}
''')
S("c04-header-again", "C04", "setting the header in a later section, after entries have been written", "the truncation... entries written before the header was set are not counted",
  [(ENC, """    pub fn set_header(&mut self, header: Header) {
        self.inner.w.modify_header(|h| *h = header);
    }""", """    pub fn set_header(&mut self, header: Header) {
        self.inner.qdcount = header.question_count();
        self.inner.w.modify_header(|h| *h = header);
    }""")],
  r'''
fn main() {
    let mut buf = [0u8; 200];
    let n = d("a.b");
    let mut enc = MessageEncoder::new(&mut buf);
    enc.question(encoder::Question::new(&n));
    let mut h = Header::default();
    h.set_id(77);
    enc.set_header(h);
    let len = enc.finish().unwrap();
    let dec = MessageDecoder::new(&buf[..len]).unwrap();
    assert_eq!(dec.header().id(), 77);
    assert_eq!(dec.header().question_count(), 1);
}
''')
# ---------------------------------------------------------------- C05
S("c05-exact-fit", "C05", "a buffer that is exactly as long as the message", "the message is reported (and flagged) as truncated although it fits",
  [(ENC, """        if data.len() > buf.len() {
            self.trunc = true;
            buf.copy_from_slice""", """        if data.len() >= buf.len() {
            self.trunc = !data.is_empty();
            buf.copy_from_slice""")],
  r'''
fn main() {
    let n = d("a.b");
    let mut buf = [0u8; 21];
    let mut enc = MessageEncoder::new(&mut buf);
    enc.question(encoder::Question::new(&n));
    assert_eq!(enc.finish(), Ok(21));
}
''')
S("c05-cut-rdata", "C05", "the buffer ending inside the data of the last record", "the message is reported as complete and goes out without the truncation bit",
  [(ENC, "        w.trunc = enc.w.trunc;\n", "")],
  r'''
fn main() {
    let n = d("a.b");
    let rec = Record::A(A::new([1, 2, 3, 4].into()));
    let mut buf = [0u8; 12 + 5 + 10 + 2];
    let mut enc = MessageEncoder::new(&mut buf).answers();
    enc.add_answer(encoder::ResourceRecord::new(&n, &rec));
    assert_eq!(enc.finish(), Err(uwuhi::Error::Truncated));
}
''')
# ---------------------------------------------------------------- C06
S("c06-z-bits", "C06", "a header with reserved (Z/AD/CD) bits set, and then any setter", "unrelated bits are cleared",
  [(PKT, "HeaderFlags::from_bits_retain(self.flags.get())", "HeaderFlags::from_bits_truncate(self.flags.get())"),
   (PKT, "        const Z = 0b111 << be_pos(9);\n", "        const Z = 1 << be_pos(9);\n")],
  r'''
fn main() {
    let m = head(1, 0x0030, [0; 4]);
    let mut h = *MessageDecoder::new(&m).unwrap().header();
    h.set_response(true);
    let mut buf = [0u8; 12];
    let mut enc = MessageEncoder::new(&mut buf);
    enc.set_header(h);
    enc.finish().unwrap();
    assert_eq!(&buf[2..4], &[0x80, 0x30]);
}
''')
S("c06-rcode-overflow", "C06", "setting a response code above 15", "other header bits are changed",
  [(PKT, "                (u16::from(rcode.0) << HeaderFlags::RCODE_POS) & HeaderFlags::RCODE_MASK;", "                u16::from(rcode.0) << HeaderFlags::RCODE_POS;")],
  r'''
fn main() {
    let mut h = Header::default();
    h.set_rcode(RCode::BAD_VERS);
    let mut buf = [0u8; 12];
    let mut enc = MessageEncoder::new(&mut buf);
    enc.set_header(h);
    enc.finish().unwrap();
    assert_eq!(buf[3] & 0xf0, 0);
}
''')
# ---------------------------------------------------------------- C07
S("c07-extend-limit", "C07", "collecting a name from more than 127 labels by reference", "labels are silently dropped",
  [(NAME, """            labels: Vec::from_iter(iter.into_iter().cloned()),""", """            // A name of more than 127 labels cannot be sent.
            labels: Vec::from_iter(iter.into_iter().take(127).cloned()),""")],
  r'''
fn main() {
    let l = Label::new("x");
    let n: DomainName = std::iter::repeat(&l).take(200).collect();
    assert_eq!(n.labels().len(), 200);
}
''')
S("c07-trim", "C07", "a part of a name with white space around it", "the spaces are lost: the label is not the part between the dots",
  [(NAME, "            name.labels.push(label.parse()?);", "            name.labels.push(label.trim_end().parse()?);")],
  r'''
fn main() {
    let n = d("my printer .local");
    assert_eq!(n.labels()[0].as_bytes(), b"my printer ");
}
''')
# ---------------------------------------------------------------- C08
S("c08-txt-cut", "C08", "a TXT record whose last string is longer than the record's data", "the damaged record is presented as a valid one",
  [(DEC, "        self.read_slice(length.into())", "        self.read_slice(usize::from(length).min(self.buf().len()))")],
  r'''
fn main() {
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 16, 1, 1, &[5, b'x'])]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = dec.next().unwrap().unwrap();
    assert!(matches!(r.as_enum(), Some(Err(uwuhi::Error::Eof))));
}
''')
S("c08-soa-minimum", "C08", "an SOA record cut off before its last field", "the damaged record is presented as a valid one with an invented minimum TTL",
  [(REC, "minimum_ttl: dec.r.read_u32()?,", "minimum_ttl: dec.r.read_u32().unwrap_or_default(),")],
  r'''
fn main() {
    let mut data = [wire("a"), wire("b")].concat();
    data.extend_from_slice(&[0; 18]);
    let m = msg(1, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 6, 1, 1, &data)]);
    let mut dec = MessageDecoder::new(&m).unwrap().answers().unwrap();
    let r = dec.next().unwrap().unwrap();
    assert!(matches!(r.as_enum(), Some(Err(uwuhi::Error::Eof))));
}
''')
# ---------------------------------------------------------------- C09
S("c09-mailb-minfo", "C09", "a MAILB query against MINFO records", "MAILB matches a record type that it does not stand for",
  [(PKT, "matches!(ty, Type::MB | Type::MG | Type::MR)", "matches!(ty, Type::MB | Type::MG | Type::MR | Type::MINFO)")],
  r'''
fn main() {
    assert!(QType::MAILB.matches(Type::MB));
    assert!(!QType::MAILB.matches(Type::MINFO));
}
''')
S("c09-class-low-byte", "C09", "a query class above 255 whose low byte is 255", "a query for an unknown class is answered like a query for any class",
  [(PKT, "        if *self == Self::ANY {", "        if self.0 & 0xff == Self::ANY.0 {")],
  r'''
fn main() {
    let m = msg(1, 0, [1, 0, 0, 0], &[q("a.b", 1, 0x01ff)]);
    let mut dec = MessageDecoder::new(&m).unwrap();
    let qu = dec.next().unwrap().unwrap();
    assert!(!qu.qclass().matches(Class::IN));
    assert!(QClass::ANY.matches(Class::IN));
}
''')
# ---------------------------------------------------------------- C10
S("c10-name-prefix", "C10", "a query for a name that is a proper prefix (in labels) of a registered one, or for the root", "records of other names are given as answers",
  [(ADV, "                if q.qname() != &entry.name {", "                if !q.qname().labels().iter().zip(entry.name.labels()).all(|(a, b)| a == b) {")],
  r'''
fn main() {
    let mut adv = Advertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("host", 1, 1)]);
    assert!(adv.handle_packet(&m).unwrap().is_none());
    let m = msg(1, 0, [1, 0, 0, 0], &[q("host.local", 1, 1)]);
    assert!(adv.handle_packet(&m).unwrap().is_some());
}
''')
S("c10-replace-address", "C10", "registering a second address of the same family for a name", "only the last address is given as an answer",
  [(ADV, """        self.db.entries.push(Entry::new(host_and_domain, record));""", """        let ty = record.record_type();
        self.db
            .entries
            .retain(|e| e.name != host_and_domain || e.record.record_type() != ty);
        self.db.entries.push(Entry::new(host_and_domain, record));""")],
  r'''
fn main() {
    let mut adv = Advertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
    adv.add_name(Label::new("host"), [1, 2, 3, 5].into());
    let m = msg(1, 0, [1, 0, 0, 0], &[q("host.local", 1, 1)]);
    let r = adv.handle_packet(&m).unwrap().unwrap();
    assert_eq!(MessageDecoder::new(r).unwrap().header().answer_count(), 2);
}
''')
# ---------------------------------------------------------------- C11
S("c11-buffer-grows", "C11", "a query whose answer is too long for one packet, and then another such query", "the response buffer is changed by a truncated response, so later responses differ from the first one and exceed one mDNS packet",
  [(ADV, """            let len = enc.finish().ok().unwrap_or(self.response_buf.len()); // truncated replies should still get sent
            Ok(Some(&self.response_buf[..len]))""", """            match enc.finish() {
                Ok(len) => Ok(Some(&self.response_buf[..len])),
                Err(_) => {
                    // truncated replies should still get sent, but make room for the next one
                    let len = self.response_buf.len();
                    self.response_buf.resize(len + MDNS_BUFFER_SIZE, 0);
                    Ok(Some(&self.response_buf[..len]))
                }
            }""")],
  r'''
fn main() {
    let mut adv = Advertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
    for i in 0..100 {
        adv.add_name(Label::new("host"), [1, 2, 4, i].into());
    }
    let m = msg(1, 0, [1, 0, 0, 0], &[q("host.local", 1, 1)]);
    let a = adv.handle_packet(&m).unwrap().unwrap().to_vec();
    let b = adv.handle_packet(&m).unwrap().unwrap().to_vec();
    assert_eq!(a, b);
}
''')
S("c11-rcode", "C11", "a query with an error code other than FORM_ERR to REFUSED", "such packets are answered",
  [(ADV, "        if dec.header().rcode() != RCode::NO_ERROR {", "        if matches!(\n            dec.header().rcode(),\n            RCode::FORM_ERR | RCode::SERV_FAIL | RCode::NX_DOMAIN | RCode::NOT_IMP | RCode::REFUSED\n        ) {")],
  r'''
fn main() {
    let mut adv = Advertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
    let m = msg(1, 9, [1, 0, 0, 0], &[q("host.local", 1, 1)]);
    assert!(adv.handle_packet(&m).unwrap().is_none());
}
''')
# ---------------------------------------------------------------- C12
S("c12-empty-value", "C12", "an instance with a TXT key that has an empty value", "the discovered metadata shows a flag without value",
  [(ADV, "                TxtRecordValue::NoValue => k.as_bytes().to_vec(),", "                TxtRecordValue::NoValue | TxtRecordValue::Value([]) => k.as_bytes().to_vec(),")],
  r'''
fn main() {
    let mut adv = Advertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
    let mut det = InstanceDetails::new(d("host.local"), 80);
    *det.txt_records_mut() = TxtRecords::from_txt(&TXT::new([&b"k="[..]]));
    adv.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP), det);
    let m = msg(1, 0, [1, 0, 0, 0], &[q("i._s._tcp.local", 16, 1)]);
    let r = adv.handle_packet(&m).unwrap().unwrap();
    let mut n = 0;
    decode_answer(r, &mut |rec| {
        if let Record::TXT(t) = rec {
            n += 1;
            assert!(matches!(TxtRecords::from_txt(&t).get("k"), Some(TxtRecordValue::Value(b""))));
        }
        ControlFlow::Continue(())
    })
    .unwrap();
    assert_eq!(n, 1);
}
''')
S("c12-type-once", "C12", "two service types with the same name and different transports", "the second type is not listed, so its instances cannot be found by browsing",
  [(ADV, """        self.db.entries.push(Entry::new(
            self.discovery_domain.clone(),
            Record::PTR(PTR::new(service_domain.clone())),
        ));""", """        // Announce every service type only once.
        let known = self.db.entries.iter().any(|e| match &e.record {
            Record::PTR(ptr) => {
                e.name == self.discovery_domain
                    && ptr.ptrdname().labels().first() == service_domain.labels().first()
            }
            _ => false,
        });
        if !known {
            self.db.entries.push(Entry::new(
                self.discovery_domain.clone(),
                Record::PTR(PTR::new(service_domain.clone())),
            ));
        }""")],
  r'''
fn main() {
    let mut adv = Advertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
    for t in [ServiceTransport::TCP, ServiceTransport::Other] {
        adv.add_instance(ServiceInstance::new(Label::new("i"), Label::new("_s"), t), InstanceDetails::new(d("host.local"), 80));
    }
    let m = msg(1, 0, [1, 0, 0, 0], &[q("_services._dns-sd._udp.local", 12, 1)]);
    let r = adv.handle_packet(&m).unwrap().unwrap();
    let mut v = Vec::new();
    decode_answer(r, &mut |rec| {
        if let Record::PTR(p) = rec {
            v.push(Service::from_ptr(p).unwrap());
        }
        ControlFlow::Continue(())
    })
    .unwrap();
    v.sort();
    v.dedup();
    assert_eq!(v.len(), 2);
}
''')
# ---------------------------------------------------------------- C13
S("c13-unicode-keys", "C13", "two keys that differ only in the case of a non-ASCII letter", "the second key is taken as a repetition of the first and lost",
  [(SVC, "let entry = map.entry(key.to_ascii_lowercase());", "let entry = map.entry(key.to_lowercase());"),
   (SVC, "            .insert(key.to_ascii_lowercase(), TxtRecord { key, value: None });", "            .insert(key.to_lowercase(), TxtRecord { key, value: None });"),
   (SVC, "            .get(&key.to_ascii_lowercase())", "            .get(&key.to_lowercase())")],
  r'''
fn main() {
    let t = TxtRecords::from_txt(&TXT::new(["\u{e4}=1".as_bytes(), "\u{c4}=2".as_bytes()]));
    assert_eq!(t.iter().count(), 2);
}
''')
S("c13-flag-then-value", "C13", "a key that occurs first as a flag and then with a value", "the later entry wins",
  [(SVC, """                    entry.or_insert(TxtRecord {
                        key,
                        value: Some(value.to_vec()),
                    });""", """                    let rec = entry.or_insert(TxtRecord { key, value: None });
                    rec.value.get_or_insert_with(|| value.to_vec());""")],
  r'''
fn main() {
    let t = TxtRecords::from_txt(&TXT::new([&b"k"[..], &b"k=2"[..]]));
    assert!(matches!(t.get("k"), Some(TxtRecordValue::NoValue)));
    let t = TxtRecords::from_txt(&TXT::new([&b"k=1"[..], &b"k=2"[..]]));
    assert!(matches!(t.get("k"), Some(TxtRecordValue::Value(b"1"))));
}
''')
# ---------------------------------------------------------------- C14
S("c14-sctp", "C14", "an instance whose target has the transport label _sctp", "a target that must be rejected is accepted, and the name rebuilt from it is another one",
  [(SVC, """                name: service_name.clone(),
                transport: match transport.as_bytes() {
                    b"_tcp" => ServiceTransport::TCP,
                    b"_udp" => ServiceTransport::Other,""", """                name: service_name.clone(),
                transport: match transport.as_bytes() {
                    b"_tcp" => ServiceTransport::TCP,
                    b"_udp" | b"_sctp" => ServiceTransport::Other,""")],
  r'''
fn main() {
    assert!(ServiceInstance::from_ptr(PTR::new(d("i._s._sctp.local"))).is_err());
    assert!(ServiceInstance::from_ptr(PTR::new(d("i._s._udp.local"))).is_ok());
}
''')
S("c14-subtype", "C14", "a service target with a label _sub after the first one", "the target is read as a service type with the name of the wrong label instead of being rejected",
  [(SVC, """        let service_name = labels.next().ok_or(Error::Eof)?;
        let transport = labels.next().ok_or(Error::Eof)?;
        if labels.next().is_none() {
            // Domain missing, this is probably not a valid service.
            return Err(Error::Eof);
        }
        if !service_name.as_bytes().starts_with(b"_") {
            return Err(Error::InvalidValue);
        }
        Ok(Service {""", """        let mut service_name = labels.next().ok_or(Error::Eof)?;
        let mut transport = labels.next().ok_or(Error::Eof)?;
        if transport.as_bytes() == b"_sub" {
            // `_subtype._sub._service._transport`
            service_name = labels.next().ok_or(Error::Eof)?;
            transport = labels.next().ok_or(Error::Eof)?;
        }
        if labels.next().is_none() {
            // Domain missing, this is probably not a valid service.
            return Err(Error::Eof);
        }
        if !service_name.as_bytes().starts_with(b"_") {
            return Err(Error::InvalidValue);
        }
        Ok(Service {""")],
  r'''
fn main() {
    assert!(Service::from_ptr(PTR::new(d("_p._sub._s._tcp.local"))).is_err());
}
''')
# ---------------------------------------------------------------- C15
S("c15-additional", "C15", "a response with address records in its additional section", "addresses of other names are taken as answers",
  [(RES, """    for res in dec.answers()?.iter() {
        let ans = res?;""", """    let mut dec = dec.answers()?;
    let mut all: Vec<_> = dec.iter().collect();
    if let Ok(mut dec) = dec.additional() {
        // Servers add addresses here as well.
        all.extend(dec.iter());
    }
    for res in all {
        let ans = res?;""")],
  r'''
fn main() {
    let m = msg(12345, 0x8000, [0, 1, 0, 1], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4]), rr(&wire("b"), 1, 1, 1, &[1, 2, 3, 5])]);
    let mut v = Vec::new();
    uwuhi::resolver::decode_answer(&m, &mut v).unwrap();
    assert_eq!(v, [IpAddr::from([1, 2, 3, 4])]);
}
''')
S("c15-stop-at-malformed", "C15", "a response with a malformed record of a supported type before good ones", "the records after the malformed one are lost",
  [(DIS, """            Some(Err(e)) => {
                log::warn!("failed to decode RR: {:?}", e);
                continue;
            }
            None => {}""", """            Some(Err(e)) => {
                log::warn!("failed to decode RR: {:?}", e);
                return Ok(ControlFlow::Continue(()));
            }
            None => {}""")],
  r'''
fn main() {
    let m = msg(12345, 0x8000, [0, 2, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3]), rr(&wire("b"), 1, 1, 1, &[1, 2, 3, 5])]);
    let mut n = 0;
    let _ = decode_answer(&m, &mut |_| {
        n += 1;
        ControlFlow::Continue(())
    });
    assert_eq!(n, 1);
}
''')
# ---------------------------------------------------------------- C16
FAKE = r'''
/// A fake server: answers the first packet it gets with `replies`.
fn fake(replies: Vec<Vec<u8>>) -> SocketAddr {
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut b = [0; 2000];
        let (_, from) = s.recv_from(&mut b).unwrap();
        for r in replies {
            s.send_to(&r, from).unwrap();
            std::thread::sleep(Duration::from_millis(5));
        }
        std::thread::sleep(Duration::from_secs(60));
    });
    a
}
'''
S("c16-loop-error", "C16", "a stray packet whose name has a pointer loop arriving before the answer (synchronous resolver)", "the call fails instead of waiting for the answer",
  [(RES, "                    log::warn!(\"failed to decode response from {}: {:?}\", addr, e);", "                    log::warn!(\"failed to decode response from {}: {:?}\", addr, e);\n                    if e == Error::PointerLoop {\n                        return Err(e.into());\n                    }")],
  FAKE + r'''
fn main() {
    limit(60);
    let bad = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&[0xc0, 12], 1, 1, 1, &[1, 2, 3, 4])]);
    let good = msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, 4])]);
    let mut r = uwuhi::resolver::SyncResolver::new(fake(vec![bad, good])).unwrap();
    r.set_timeout(Duration::from_secs(10)).unwrap();
    let v: Vec<IpAddr> = r.resolve("a").unwrap().collect();
    assert_eq!(v, [IpAddr::from([1, 2, 3, 4])]);
}
''')
S("c16-async-keeps", "C16", "a second call of the same asynchronous resolver", "the addresses of the first call are returned again, mixed with the new ones",
  [(ARES, """        self.ip_buf.clear();

        let mut send_buf""", """        self.ip_buf.reserve(4);

        let mut send_buf""")],
  r'''
fn main() {
    limit(60);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut b = [0; 2000];
        for i in 1.. {
            let (_, from) = s.recv_from(&mut b).unwrap();
            s.send_to(&msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("a"), 1, 1, 1, &[1, 2, 3, i])]), from).unwrap();
        }
    });
    futures_lite::future::block_on(async {
        let mut r = uwuhi_async::resolver::AsyncResolver::new(a).await.unwrap();
        r.set_timeout(Duration::from_secs(10)).unwrap();
        let v: Vec<IpAddr> = r.resolve("a").await.unwrap().collect();
        assert_eq!(v, [IpAddr::from([1, 2, 3, 1])]);
        let v: Vec<IpAddr> = r.resolve("a").await.unwrap().collect();
        assert_eq!(v, [IpAddr::from([1, 2, 3, 2])]);
    });
}
''', **{"async": True})
# ---------------------------------------------------------------- C17
S("c17-order-transport", "C17", "two service types (or instances) of the same name that differ only in transport", "the second one is not reported, since the ordering used for de-duplication ignores the transport",
  [(SVC, """#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Service {""", """#[derive(Clone, PartialEq, Eq, PartialOrd, Hash)]
pub struct Service {"""),
   (SVC, "impl fmt::Display for Service {", """impl Ord for Service {
    /// Services are sorted by name.
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.name.cmp(&other.name)
    }
}

impl fmt::Display for Service {""")],
  FAKE + r'''
fn main() {
    limit(60);
    let m = msg(12345, 0x8000, [0, 2, 0, 0], &[rr(&wire("x"), 12, 1, 1, &wire("_s._tcp.local")), rr(&wire("x"), 12, 1, 1, &wire("_s._udp.local"))]);
    let mut c = SyncDiscoverer::new(fake(vec![m]), d("local")).unwrap();
    let mut n = 0;
    c.set_discovery_timeout(Duration::from_millis(2000)).unwrap();
    c.discover_service_types(|_| {
        n += 1;
        ControlFlow::Continue(())
    })
    .unwrap();
    assert_eq!(n, 2);
}
''')
S("c17-known-stops", "C17", "a packet in which a known instance is repeated before a new one", "discovery ends at the first repetition, later instances are not reported",
  [(DIS, """                Entry::Occupied(_) => {
                    // Already discovered this instance
                    ControlFlow::Continue(())""", """                Entry::Occupied(_) => {
                    // Already discovered this instance
                    ControlFlow::Break(())""")],
  FAKE + r'''
fn main() {
    limit(60);
    let p = |s: &str| rr(&wire("_s._tcp.local"), 12, 1, 1, &wire(s));
    let m = msg(12345, 0x8000, [0, 3, 0, 0], &[p("a._s._tcp.local"), p("a._s._tcp.local"), p("b._s._tcp.local")]);
    let mut c = SyncDiscoverer::new(fake(vec![m]), d("local")).unwrap();
    c.set_discovery_timeout(Duration::from_millis(2000)).unwrap();
    let mut n = 0;
    c.discover_instances(&Service::new(Label::new("_s"), ServiceTransport::TCP), |_| {
        n += 1;
        ControlFlow::Continue(())
    })
    .unwrap();
    assert_eq!(n, 2);
}
''')
# ---------------------------------------------------------------- C18
S("c18-port-zero", "C18", "an SRV record with port 0", "the record is ignored, loading the details fails or gives those of a later record",
  [(SVC, """        Ok(Self {
            host: srv.target().clone(),
            port: srv.port(),""", """        if srv.port() == 0 {
            return Err(Error::InvalidValue);
        }
        Ok(Self {
            host: srv.target().clone(),
            port: srv.port(),""")],
  FAKE + r'''
fn main() {
    limit(60);
    let srv = |port: u8| rr(&wire("i._s._tcp.local"), 33, 1, 1, &[&[0, 0, 0, 0, 0, port][..], &wire("h.local")].concat());
    let m = msg(12345, 0x8000, [0, 2, 0, 0], &[srv(0), srv(9)]);
    let mut c = SyncDiscoverer::new(fake(vec![m]), d("local")).unwrap();
    c.set_discovery_timeout(Duration::from_millis(2000)).unwrap();
    let i = ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP);
    assert_eq!(c.load_instance_details(&i).unwrap().port(), 0);
}
''')
S("c18-txt-first", "C18", "a TXT record that comes before the SRV record (asynchronous discoverer)", "the metadata is lost",
  [(ADIS, "                    txt_records = Some(TxtRecords::from_txt(&txt));", "                    if details.is_some() {\n                        txt_records = Some(TxtRecords::from_txt(&txt));\n                    }")],
  FAKE + r'''
fn main() {
    limit(60);
    let srv = rr(&wire("i._s._tcp.local"), 33, 1, 1, &[&[0, 0, 0, 0, 0, 5][..], &wire("h.local")].concat());
    let txt = rr(&wire("i._s._tcp.local"), 16, 1, 1, b"\x03k=v");
    let m = msg(12345, 0x8000, [0, 2, 0, 0], &[txt, srv]);
    futures_lite::future::block_on(async {
        let mut c = uwuhi_async::service::discovery::AsyncDiscoverer::new(fake(vec![m]), d("local")).await.unwrap();
        c.set_discovery_timeout(Duration::from_millis(2000)).unwrap();
        let i = ServiceInstance::new(Label::new("i"), Label::new("_s"), ServiceTransport::TCP);
        let det = c.load_instance_details(&i).await.unwrap();
        assert!(det.txt_records().get("k").is_some());
    });
}
''', **{"async": True})
# ---------------------------------------------------------------- C19
S("c19-async-endless", "C19", "useless packets that keep arriving faster than the retransmit timeout (asynchronous discoverer)", "discovery does not end at its time limit",
  [(ADIS, """            self.sock.send_to(data, self.server).await?;

            loop {
                if discovery_start.elapsed() >= self.discovery_timeout {
                    // Max. discovery time exceeded.
                    return Ok(());
                }
""", """            if discovery_start.elapsed() >= self.discovery_timeout {
                // Max. discovery time exceeded.
                return Ok(());
            }
            self.sock.send_to(data, self.server).await?;

            loop {
""")],
  r'''
fn main() {
    limit(20);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut b = [0; 2000];
        let (_, from) = s.recv_from(&mut b).unwrap();
        loop {
            let _ = s.send_to(&b[..12], from);
            std::thread::sleep(Duration::from_millis(20));
        }
    });
    futures_lite::future::block_on(async {
        let mut c = uwuhi_async::service::discovery::AsyncDiscoverer::new(a, d("local")).await.unwrap();
        c.discover_service_types(|_| ControlFlow::Continue(())).await.unwrap();
    });
}
''', **{"async": True})
S("c19-three-tries", "C19", "four or more lost queries in a row", "the discoverer stops repeating its query, so the service is never found",
  [(DIS, """        'retransmit: loop {
            self.sock.send_to(data, self.server)?;
""", """        let mut tries = 0;
        'retransmit: loop {
            // Don't flood the network.
            if tries < 4 {
                self.sock.send_to(data, self.server)?;
                tries += 1;
            }
""")],
  r'''
fn main() {
    limit(60);
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    let a = s.local_addr().unwrap();
    std::thread::spawn(move || {
        let mut b = [0; 2000];
        for _ in 0..6 {
            s.recv_from(&mut b).unwrap();
        }
        let (_, from) = s.recv_from(&mut b).unwrap();
        s.send_to(&msg(12345, 0x8000, [0, 1, 0, 0], &[rr(&wire("x"), 12, 1, 1, &wire("_s._tcp.local"))]), from).unwrap();
    });
    let mut c = SyncDiscoverer::new(a, d("local")).unwrap();
    c.set_retransmit_timeout(Duration::from_millis(30)).unwrap();
    c.set_discovery_timeout(Duration::from_millis(3000)).unwrap();
    let mut n = 0;
    c.discover_service_types(|_| {
        n += 1;
        ControlFlow::Break(())
    })
    .unwrap();
    assert_eq!(n, 1);
}
''')
# ---------------------------------------------------------------- C20
WARM = r'''
/// Waits until the advertiser answers.
fn warm_up() -> UdpSocket {
    let m = msg(1, 0, [1, 0, 0, 0], &[q("host.local", 1, 1)]);
    let mut b = [0; 2000];
    for _ in 0..100 {
        let s = UdpSocket::bind("127.0.0.1:0").unwrap();
        s.set_read_timeout(Some(Duration::from_millis(200))).unwrap();
        let _ = s.send_to(&m, "127.0.0.1:5353");
        if s.recv_from(&mut b).is_ok() {
            return s;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    panic!("the advertiser does not answer");
}
'''
S("c20-empty-datagram", "C20", "an empty datagram", "the synchronous advertiser stops listening",
  [(ADV, """            let packet = &recv_buf[..len];

            log::trace!""", """            let packet = match &recv_buf[..len] {
                [] => return Ok(()),
                packet => packet,
            };

            log::trace!""")],
  WARM + r'''
fn main() {
    limit(60);
    std::thread::spawn(|| {
        let mut adv = SyncAdvertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
        let _ = adv.listen_blocking();
    });
    let s = warm_up();
    s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    s.send_to(&[], "127.0.0.1:5353").unwrap();
    s.send_to(&msg(1, 0, [1, 0, 0, 0], &[q("host.local", 1, 1)]), "127.0.0.1:5353").unwrap();
    let mut b = [0; 2000];
    s.recv_from(&mut b).expect("an answer");
}
''', ns=True)
S("c20-stale-bytes", "C20", "a query cut off in the middle, after a longer query that ends in the same way (asynchronous advertiser)", "the bytes of the earlier packet are taken as the rest of the later one, and a malformed packet is answered",
  [(AADV, "            let packet = &recv_buf[..len];", "            let packet = &recv_buf[..len.max(64)];")],
  WARM + r'''
fn main() {
    limit(60);
    std::thread::spawn(|| {
        let mut adv = uwuhi_async::service::advertising::AsyncAdvertiser::new(Label::new("host"), [1, 2, 3, 4].into()).unwrap();
        let _ = futures_lite::future::block_on(adv.listen());
    });
    let s = warm_up();
    s.set_read_timeout(Some(Duration::from_secs(3))).unwrap();
    let m = msg(1, 0, [1, 0, 0, 0], &[q("host.local", 1, 1)]);
    let mut b = [0; 2000];
    s.send_to(&m, "127.0.0.1:5353").unwrap();
    s.recv_from(&mut b).expect("an answer");
    s.send_to(&m[..m.len() - 3], "127.0.0.1:5353").unwrap();
    assert!(s.recv_from(&mut b).is_err(), "answered a malformed query");
}
''', ns=True, **{"async": True})
# ---------------------------------------------------------------- C21
S("c21-loop-stops", "C21", "a packet whose name has a pointer loop", "the tap stops listening",
  [(TAP, """                Err(e) => {
                    log::warn!("failed to process incoming message: {:?}", e);""", """                Err(e @ Error::PointerLoop) => return Err(e.into()),
                Err(e) => {
                    log::warn!("failed to process incoming message: {:?}", e);""")],
  r'''
fn main() {
    let tap = uwuhi::tap::SyncTap::new().unwrap();
    std::thread::spawn(|| {
        let _ = tap.listen();
        eprintln!("the tap has ended");
        std::process::exit(1);
    });
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.send_to(&msg(1, 0, [1, 0, 0, 0], &[rr(&[0xc0, 12], 1, 1, 1, &[])]), "127.0.0.1:5353").unwrap();
    std::thread::sleep(Duration::from_secs(2));
}
''', ns=True)
S("c21-auth-problem", "C21", "a packet with a malformed record in the authority section", "no problem is logged, and records of the rest of the message are left out silently",
  [(DEC, """        let mut msg = msg.authority()?;
        for rr in msg.iter() {
            let rr = rr?;
            cb(format_args!("AUTH: {}", rr));
        }""", """        let mut msg = msg.authority()?;
        for rr in msg.iter().flatten() {
            cb(format_args!("AUTH: {}", rr));
        }""")],
  r'''
struct L;
static BUF: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("uwuhi") && r.level() <= log::Level::Debug {
            *BUF.lock().unwrap() += &format!("{}: {}\n", r.level(), r.args());
        }
    }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let tap = uwuhi::tap::SyncTap::new().unwrap();
    std::thread::spawn(|| tap.listen());
    let s = UdpSocket::bind("127.0.0.1:0").unwrap();
    s.send_to(&msg(1, 0x8000, [0, 0, 1, 0], &[rr(&[0x80], 1, 1, 1, &[])]), "127.0.0.1:5353").unwrap();
    std::thread::sleep(Duration::from_secs(2));
    let b = BUF.lock().unwrap();
    assert_eq!(b.lines().count(), 2, "{b}");
}
''', ns=True, log=True)
# ---------------------------------------------------------------- C22
S("c22-txt-latin1", "C22", "a TXT string with bytes of 0x80 and above", "they are shown as characters, including C1 control characters that terminals act on",
  [(REC, "if byte.is_ascii_graphic() {", "if !byte.is_ascii_control() {")],
  r'''
fn main() {
    let t = TXT::new([&[0x9bu8, b'a'][..]]);
    assert!(!t.to_string().contains('\u{9b}'));
}
''')
S("c22-label-utf8", "C22", "a label that is valid UTF-8 with non-ASCII characters", "text from the network reaches the log unescaped, including characters that change the direction of the text",
  [(NAME, "        self.as_bytes().escape_ascii().fmt(f)", "        match std::str::from_utf8(self.as_bytes()) {\n            Ok(s) if !s.chars().any(char::is_control) => f.write_str(s),\n            _ => self.as_bytes().escape_ascii().fmt(f),\n        }")],
  r'''
fn main() {
    let l = Label::new("a\u{202e}b");
    assert!(l.to_string().is_ascii());
}
''')
