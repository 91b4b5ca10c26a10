//! C18: messages survive a round trip with any set of sections.
use crate::fields::*;
use crate::messages::*;
use crate::spec::{enc, whole, R};
use crate::sym;
use amqp_codec::protocol::*;
use amqp_codec::types::*;
use amqp_codec::{Decode, InMessage, OutMessage};
use bytes::Bytes;

/// Both message types read `w` as `p`, and write it again.
fn read(p: &Parts, w: &[u8]) {
    let i = whole(InMessage::decode(w));
    p.same_in(&i, true);
    let o = whole(OutMessage::decode(w));
    p.same_out(&o, true);
    let e = enc(&i);
    let mut r = R::new(&e);
    p.check(&mut r);
    r.end();
    let f = enc(&o);
    let mut r = R::new(&f);
    p.check(&mut r);
    r.end();
    // what one has written the other reads
    p.same_out(&whole(OutMessage::decode(&e)), true);
    let again = whole(InMessage::decode(&f));
    p.same_in(&again, true);
    assert!(again == i, "incoming message changed by a round trip");
}
/// Messages made by the setters.
fn made(p: &Parts) {
    let i = p.build_in();
    p.same_in(&i, false);
    let e = enc(&i);
    let mut r = R::new(&e);
    p.check(&mut r);
    r.end();
    let o = p.build_out();
    p.same_out(&o, false);
    let f = enc(&o);
    let mut r = R::new(&f);
    p.check(&mut r);
    r.end();
    p.same_in(&whole(InMessage::decode(&e)), true);
    p.same_in(&whole(InMessage::decode(&f)), true);
    p.same_out(&whole(OutMessage::decode(&e)), true);
    p.same_out(&whole(OutMessage::decode(&f)), true);
}
fn written(p: &Parts, alt: bool) -> Vec<u8> {
    let mut w = Vec::new();
    p.write(&mut w, alt);
    w
}

fn long_section(n: usize) {
    let mut p = Parts::draw(0, 99);
    let text = || Variant::String(Str::any(Mode::Long(n)));
    let k = sym::pick(7);
    if k > 2 {
        p.data = vec![Bytes::any(Mode::Poor)]
    }
    let mut map = Annotations::new();
    map.insert(Symbol::from("k"), text());
    match k {
        0 => p.data = vec![Bytes::any(Mode::Long(n)), Bytes::any(Mode::Poor)],
        1 => p.sequence = vec![List(vec![text()])],
        2 => p.value = Some(text()),
        3 => p.app = Some(vec![(Str::key(0), text())]),
        4 => p.message = Some(map),
        5 => p.properties = Some(Properties { user_id: Some(Bytes::any(Mode::Long(n))), ..Properties::default() }),
        _ => p.footer = Some(map),
    }
    read(&p, &written(&p, false));
    if k != 6 && k != 4 && k != 1 {
        made(&p)
    }
}

harnesses! {
    // @bound every set of header, annotations, properties, application properties and footer, each with free contents of one structure, around one data section, a sequence or a value; read by both message types, written and read again
    // @opts {"shards":4,"weight":2}
    c18_sections {
        let p = Parts::draw(sym::pick(64), 99).body([0, 3, 5][sym::pick(3)]);
        read(&p, &written(&p, false))
    }
    // @bound every set of the other sections together with every body: none, 1-3 data sections, 1-2 sequences of 0-2 values, a value of every structure; made by the setters of both types
    // @opts {"shards":4,"weight":2}
    c18_made {
        // no setters for annotations and footer
        let p = Parts::draw([0, 1, 8, 16, 9, 25][sym::pick(6)], 99).body(sym::pick(BODIES));
        made(&p)
    }
    // @bound each section in every structure (fields and maps in every structure, texts of 0-3 octets), alone or with the others, by wire
    // @opts {"shards":8,"weight":2}
    c18_rich {
        let k = sym::pick(PARTS);
        let p = Parts::draw(if sym::pick(2) == 0 { 1 << k } else { 1 << k | 8 | 16 | 32 }, k).body(0);
        read(&p, &written(&p, false))
    }
    // @bound header, properties and application properties in every structure, made by the setters
    // @opts {"shards":4,"weight":2}
    c18_rich_made {
        let k = [0, 3, 4][sym::pick(3)];
        let mut p = Parts::draw(1 << k, k).body(0);
        if let Some(true) = p.app.as_ref().map(|a| a.is_empty()) {
            // not set at all
            p.app = None
        }
        made(&p)
    }
    // @bound every body with and without header and footer, by wire
    // @opts {"shards":2}
    c18_bodies {
        let p = Parts::draw([0, 1, 32, 33][sym::pick(4)], 99).body(sym::pick(BODIES - 1));
        read(&p, &written(&p, false))
    }
    // @bound every section, every form of its descriptor and of its content
    // @opts {"shards":4}
    c18_forms {
        let k = sym::pick(PARTS + 3);
        let p = if k < PARTS {
            Parts::draw(1 << k, 99).body(0)
        } else {
            Parts::draw(0, 99).body([0, 3, 5][k - PARTS])
        };
        read(&p, &written(&p, true))
    }
    // @bound data of 250-260 octets in one or two sections between header and footer, application properties whose map has 248-258 octets
    // @opts {"shards":2}
    c18_boundary {
        let n = 248 + sym::pick(13);
        let mut p = Parts::draw(if sym::pick(2) == 0 { 0 } else { 33 }, 99);
        match sym::pick(3) {
            0 => p.data = vec![Bytes::any(Mode::Long(n))],
            1 => p.data = vec![Bytes::any(Mode::Long(n)), Bytes::any(Mode::Long(255))],
            _ => {
                p.data = vec![Bytes::new()];
                p.app = Some(vec![(Str::key(0), Variant::String(Str::any(Mode::Long(n - 12))))])
            }
        }
        read(&p, &written(&p, false));
        made(&Parts { footer: None, ..p })
    }
    // @bound 65500, 65536 or 70000 octets as data, in a sequence, as the value, in application properties, annotations, properties or the footer
    // @opts {"shards":21}
    c18_large {
        long_section([65500, 65536, 70000][sym::pick(3)])
    }
    // @bound 2, 100, 254-257 or 300 octets of two-octet characters in a sequence, as the value, in application properties, annotations or the footer
    // @opts {"shards":21}
    c18_wide {
        wide_texts();
        long_section([2, 100, 254, 255, 256, 257, 300][sym::pick(7)])
    }
    // @bound the same key set twice as an application property: the incoming message has the last value
    c18_repeated_key {
        let (a, b) = (sym::u16(), sym::u16());
        let m = InMessage::default().set_app_property("k", a).set_app_property("k", b);
        assert!(m.app_property("k") == Some(&Variant::Ushort(b)), "application property set twice");
        let p = Parts { app: Some(vec![(Str::from("k"), Variant::Ushort(b))]), ..Parts::draw(0, 99) };
        let e = enc(&m);
        let mut r = R::new(&e);
        p.check(&mut r);
        r.end();
    }
    // @bound constructors from a body: with_body and with_messages of no message, any octets
    c18_constructors {
        let n = sym::pick(4);
        let b = Bytes::from(sym::octets(n));
        let p = Parts { data: vec![b.clone()], ..Parts::draw(0, 99) };
        p.same_in(&InMessage::with_body(b.clone()), false);
        p.same_out(&OutMessage::with_body(b.clone()), false);
        made(&p);
        let p = Parts::draw(0, 99);
        p.same_in(&InMessage::with_messages(vec![]), false);
        p.same_out(&OutMessage::with_messages(vec![]), false);
        p.same_in(&InMessage::default(), false);
        p.same_out(&OutMessage::default(), false);
    }
    // @bound any octets that do not begin a section, before, between or after sections
    c18_stray {
        let p = Parts::draw(1, 99).body(0);
        let mut w = Vec::new();
        let at = sym::pick(3);
        let k = sym::u8();
        sym::assume(k != 0);
        if at == 0 {
            w.push(k)
        }
        if let Some(h) = &p.header {
            h.write(&mut w, false)
        }
        if at == 1 {
            w.push(k)
        }
        let q = Parts { header: None, ..p };
        q.write(&mut w, false);
        if at == 2 {
            w.push(k)
        }
        assert!(InMessage::decode(&w).is_err(), "octets outside any section ignored");
        assert!(OutMessage::decode(&w).is_err(), "octets outside any section ignored");
        assert!(InMessage::decode(&[]).is_err() && OutMessage::decode(&[]).is_err(), "message out of nothing");
    }
}
