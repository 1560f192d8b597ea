#!/usr/bin/env python3
"""Applies edits of /repo that keep its behaviour and runs every check, which has to stay quiet.

usage: refactor.py [--props P,Q] SET ...     SET: structure | evaluation
Run it through tools/inbox.sh: it edits /repo."""
import json, subprocess, sys, time

V, R = "/verif", "/repo"
SP, SE, RC, RS, RU = "spake2/src/lib.rs", "spake2/src/ed25519.rs", "srp/src/client.rs", "srp/src/server.rs", "srp/src/utils.rs"
AC, AS, AU = "aucpace/src/client.rs", "aucpace/src/server.rs", "aucpace/src/utils.rs"

STRUCTURE = [
    # spake2: one helper for the letters, early exits written as ok_or, one digest over one buffer
    (SP, """        let msg_side = msg2[0];

        match self.side {
            Side::A { id_a: _, id_b: _ } => match msg_side {
                0x42 => (), // 'B'
                _ => return Err(Error::BadSide),
            },
            Side::B { id_a: _, id_b: _ } => match msg_side {
                0x41 => (), // 'A'
                _ => return Err(Error::BadSide),
            },
            Side::Symmetric { id_s: _ } => match msg_side {
                // 'S', but never our own message sent back to us
                0x53 if msg2[1..] != self.msg1[..] => (),
                _ => return Err(Error::BadSide),
            },
        }

        let msg2_element = match G::bytes_to_element(&msg2[1..]) {
            Some(x) => x,
            None => return Err(Error::CorruptMessage),
        };
""", """        let (letter, body) = msg2.split_first().ok_or(Error::WrongLength)?;
        let expected = self.side.peer_letter();
        let reflected = matches!(self.side, Side::Symmetric { .. }) && body == &self.msg1[..];
        if *letter != expected || reflected {
            return Err(Error::BadSide);
        }

        let msg2_element = G::bytes_to_element(body).ok_or(Error::CorruptMessage)?;
"""),
    (SP, """/// SPAKE2 algorithm.
#[derive(Eq, PartialEq)]
pub struct Spake2""", """impl Side {
    const fn letter(&self) -> u8 {
        match self {
            Self::A { .. } => b'A',
            Self::B { .. } => b'B',
            Self::Symmetric { .. } => b'S',
        }
    }

    const fn peer_letter(&self) -> u8 {
        match self {
            Self::A { .. } => b'B',
            Self::B { .. } => b'A',
            Self::Symmetric { .. } => b'S',
        }
    }
}

/// SPAKE2 algorithm.
#[derive(Eq, PartialEq)]
pub struct Spake2"""),
    (SP, """        let mut msg_and_side = vec![match side {
            Side::A { id_a: _, id_b: _ } => 0x41, // 'A'
            Side::B { id_a: _, id_b: _ } => 0x42, // 'B'
            Side::Symmetric { id_s: _ } => 0x53,  // 'S'
        }];
        msg_and_side.extend_from_slice(&msg1);
""", """        let mut msg_and_side = Vec::with_capacity(1 + msg1.len());
        msg_and_side.push(side.letter());
        msg_and_side.extend(msg1.iter().copied());
"""),
    (SP, """            for byte in self.0 {
                write!(fmt, "{byte:02x}")?;
            }

            write!(fmt, ")")""", """            const DIGITS: &[u8; 16] = b"0123456789abcdef";
            for byte in self.0 {
                fmt::Write::write_char(fmt, DIGITS[usize::from(byte >> 4)] as char)?;
                fmt::Write::write_char(fmt, DIGITS[usize::from(byte & 15)] as char)?;
            }

            fmt.write_str(")")"""),
    (SE, """    //let mut hash = G::TranscriptHash::default();
    let mut hash = Sha256::new();
    hash.update(pw_hash.finalize());
    hash.update(ida_hash.finalize());
    hash.update(idb_hash.finalize());
    hash.update(first_msg);
    hash.update(second_msg);
    hash.update(key_bytes);
    hash.finalize().to_vec()
""", """    let mut transcript = Vec::new();
    transcript.extend_from_slice(&pw_hash.finalize());
    transcript.extend_from_slice(&ida_hash.finalize());
    transcript.extend_from_slice(&idb_hash.finalize());
    for part in [first_msg, second_msg, key_bytes] {
        transcript.extend_from_slice(part);
    }
    Sha256::digest(&transcript).to_vec()
"""),
    (SE, """    if msg_u < msg_v {
        hash.update(msg_u);
        hash.update(msg_v);
    } else {
        hash.update(msg_v);
        hash.update(msg_u);
    }
    hash.update(key_bytes);
""", """    let mut ordered = [msg_u, msg_v];
    ordered.sort_unstable();
    for m in ordered {
        hash.update(m);
    }
    hash.update(key_bytes);
"""),
    (SE, """    for (i, x) in okm.iter().enumerate().take(32 + 16) {
        reducible[32 + 16 - 1 - i] = *x;
    }
""", """    reducible[..48].copy_from_slice(&okm);
    reducible[..48].reverse();
"""),
    (SE, """        if b.len() != 32 {
            return None;
        }

        let mut bytes = [0u8; 32];
        bytes.copy_from_slice(b);

        let cey = CompressedEdwardsY(bytes);
        cey.decompress()
""", """        let bytes: [u8; 32] = b.try_into().ok()?;
        CompressedEdwardsY(bytes).decompress()
"""),
    # srp: helpers for the digests and the padding
    (RU, """    let mut buf = vec![0u8; n.len()];
    let l = n.len() - g_bytes.len();
    buf[l..].copy_from_slice(&g_bytes);

    let mut d = D::new();
    d.update(&n);
    d.update(&buf);
    BigUint::from_bytes_be(d.finalize().as_slice())
""", """    let pad = vec![0u8; n.len() - g_bytes.len()];
    BigUint::from_bytes_be(&digest_of::<D>(&[&n, &pad, &g_bytes]))
"""),
    (RU, """    let mut d = D::new();
    d.update(a_pub);
    d.update(b_pub);
    d.update(key);
    d.finalize()
""", """    digest_of::<D>(&[a_pub, b_pub, key])
"""),
    (RU, """    let mut d = D::new();
    d.update(a_pub);
    d.update(m1);
    d.update(key);
    d.finalize()
""", """    digest_of::<D>(&[a_pub, m1, key])
"""),
    (RU, """// u = H(PAD(A) | PAD(B))
""", """fn digest_of<D: Digest>(parts: &[&[u8]]) -> Output<D> {
    parts
        .iter()
        .fold(D::new(), |d, part| d.chain_update(part))
        .finalize()
}

// u = H(PAD(A) | PAD(B))
"""),
    (RS, """        if self.m1.ct_eq(reply).unwrap_u8() == 1 {
            Ok(())
        } else {
            Err(SrpAuthError::BadRecordMac("client".to_owned()))
        }
""", """        if !bool::from(self.m1.as_slice().ct_eq(reply)) {
            return Err(SrpAuthError::BadRecordMac(String::from("client")));
        }
        Ok(())
"""),
    (RC, """        // (k * g^x)
        let base = (k * (self.params.g.modpow(x, &self.params.n))) % &self.params.n;
""", """        // (k * g^x)
        let base = (k * self.compute_v(x)) % &self.params.n;
"""),
    (RC, """        let base = ((&self.params.n + b_pub) - &base) % &self.params.n;
""", """        let base = (b_pub % &self.params.n + (&self.params.n - base)) % &self.params.n;
"""),
    # aucpace: the unblinding and the verifier in helpers, the two password inputs built alike
    (AC, """    let user = username.as_ref();
    let pass = password.as_ref();
    let u = user.len();
    let p = pass.len();

    if u + p + 1 > BUFSIZ {
        return Err(Error::UsernameOrPasswordTooLong);
    }

    let mut buf = [0u8; BUFSIZ];
    buf[0..u].copy_from_slice(user);
    buf[u] = b':';
    buf[(u + 1)..=(u + p)].copy_from_slice(pass);

    let hash = hasher
        .hash_password_customized(&buf[0..=(u + p)], None, None, params, salt)
        .map_err(Error::PasswordHashing);

    hash
""", """    let mut buf = [0u8; BUFSIZ];
    let mut used = 0;
    for part in [username.as_ref(), b":", password.as_ref()] {
        let end = used + part.len();
        buf.get_mut(used..end)
            .ok_or(Error::UsernameOrPasswordTooLong)?
            .copy_from_slice(part);
        used = end;
    }

    hasher
        .hash_password_customized(&buf[..used], None, None, params, salt)
        .map_err(Error::PasswordHashing)
"""),
    (AC, """    let mut v = alloc::vec::Vec::with_capacity(user.len() + pass.len() + 1);
    v.extend_from_slice(user);
    v.push(b':');
    v.extend_from_slice(pass);
""", """    let v = [user, b":", pass].concat();
"""),
    (AU, """    // support both 32 and 64 byte hashes
    match hash_bytes.len() {
        32 => {
            let arr = hash_bytes
                .try_into()
                .expect("slice length invariant broken");
            Ok(Scalar::from_bytes_mod_order(arr))
        }
        64 => {
            let arr = hash_bytes
                .try_into()
                .expect("slice length invariant broken");
            Ok(Scalar::from_bytes_mod_order_wide(arr))
        }
        _ => Err(Error::HashSizeInvalid),
    }
""", """    // support both 32 and 64 byte hashes
    if !matches!(hash_bytes.len(), 32 | 64) {
        return Err(Error::HashSizeInvalid);
    }
    let mut wide = [0u8; 64];
    wide[..hash_bytes.len()].copy_from_slice(hash_bytes);
    Ok(Scalar::from_bytes_mod_order_wide(&wide))
"""),
    (AU, """    let mut ta_hasher: D = H3();
    ta_hasher.update(ssid);
    ta_hasher.update(sk1);

    let mut tb_hasher: D = H4();
    tb_hasher.update(ssid);
    tb_hasher.update(sk1);

    (ta_hasher.finalize(), tb_hasher.finalize())
""", """    let tb = H4::<D>().chain_update(&ssid).chain_update(&sk1).finalize();
    let ta = H3::<D>().chain_update(ssid).chain_update(sk1).finalize();

    (ta, tb)
"""),
    (AS, """        let sk1 = compute_first_session_key::<D>(self.ssid, self.priv_key, client_pubkey);
        Ok(compute_session_key::<D>(self.ssid, sk1))
""", """        let ssid = self.ssid.clone();
        self.receive_client_pubkey(client_pubkey)
            .map(|next| compute_session_key::<D>(ssid, next.sk1))
"""),
    (AS, """        // check for the neutral point
        if client_pubkey.is_identity() {
            return Err(Error::IllegalPointError);
        }

        let ssid = self""", """        let ssid = self"""),
    (AS, """        if tb.ct_eq(&client_authenticator).into() {
            let sk = compute_session_key::<D>(self.ssid, self.sk1);
            let message = ServerMessage::Authenticator(
                ta.as_slice()
                    .try_into()
                    .expect("array length invariant broken"),
            );
            Ok((sk, message))
        } else {
            Err(Error::MutualAuthFail)
        }
""", """        if !bool::from(tb.as_slice().ct_eq(&client_authenticator[..])) {
            return Err(Error::MutualAuthFail);
        }
        let mut authenticator = [0u8; 64];
        authenticator.copy_from_slice(&ta);
        let message = ServerMessage::Authenticator(authenticator);
        Ok((compute_session_key::<D>(self.ssid, self.sk1), message))
"""),
]

EVALUATION = [
    # how often the generator is asked and for how many bytes, when a value is computed
    (SE, """        c2_Scalar::random(cspring)
""", """        let mut wide = [0u8; 64];
        let (low, high) = wide.split_at_mut(32);
        cspring.fill_bytes(low);
        cspring.fill_bytes(high);
        c2_Scalar::from_bytes_mod_order_wide(&wide)
"""),
    (SP, """        // a: K = (Y+N*(-pw))*x
        // b: K = (X+M*(-pw))*y
        let unblinding""", """        // a: K = (Y+N*(-pw))*x
        // b: K = (X+M*(-pw))*y
        let minus_password = G::scalar_neg(&self.password_scalar);
        let unblinding"""),
    (SP, """        let tmp1 = G::scalarmult(&unblinding, &G::scalar_neg(&self.password_scalar));
""", """        let tmp1 = G::scalarmult(&unblinding, &minus_password);
"""),
    (SP, """        let m1: G::Element = G::add(
            &G::basepoint_mult(&xy_scalar),
            &G::scalarmult(&blinding, &password_scalar),
        );
""", """        let blind = G::scalarmult(&blinding, &password_scalar);
        let public = G::basepoint_mult(&xy_scalar);
        let m1: G::Element = G::add(&blind, &public);
"""),
    (RC, """        let a = BigUint::from_bytes_be(a);
        let a_pub = self.compute_a_pub(&a);
        let b_pub = BigUint::from_bytes_be(b_pub);

        // Safeguard against malicious B
        if &b_pub % &self.params.n == BigUint::default() {
            return Err(SrpAuthError::IllegalParameter("b_pub".to_owned()));
        }

        let u = compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be());
        let k = compute_k::<D>(self.params);
        let identity_hash = Self::compute_identity_hash(username, password);
        let x = Self::compute_x(identity_hash.as_slice(), salt);
""", """        let b_pub = BigUint::from_bytes_be(b_pub);

        // Safeguard against malicious B
        if (&b_pub % &self.params.n).bits() == 0 {
            return Err(SrpAuthError::IllegalParameter("b_pub".to_owned()));
        }

        let x = Self::compute_x(
            Self::compute_identity_hash(username, password).as_slice(),
            salt,
        );
        let a = BigUint::from_bytes_be(a);
        let a_pub = self.compute_a_pub(&a);
        let k = compute_k::<D>(self.params);
        let u = compute_u::<D>(&a_pub.to_bytes_be(), &b_pub.to_bytes_be());
"""),
    (RS, """        let k = compute_k::<D>(self.params);
        let b_pub = self.compute_b_pub(&b, &k, &v);

        // Safeguard against malicious A
        if &a_pub % &self.params.n == BigUint::default() {
            return Err(SrpAuthError::IllegalParameter("a_pub".to_owned()));
        }
""", """        // Safeguard against malicious A
        if &a_pub % &self.params.n == BigUint::default() {
            return Err(SrpAuthError::IllegalParameter("a_pub".to_owned()));
        }

        let k = compute_k::<D>(self.params);
        let b_pub = self.compute_b_pub(&b, &k, &v);
"""),
    (RS, """        let inter = (k * v) % &self.params.n;
        (inter + self.params.g.modpow(b, &self.params.n)) % &self.params.n
""", """        let n = &self.params.n;
        (self.params.g.modpow(b, n) + (k % n) * (v % n)) % n
"""),
    (RS, """        let base = (a_pub * v.modpow(u, &self.params.n)) % &self.params.n;
        base.modpow(b, &self.params.n)
""", """        let n = &self.params.n;
        let base = (a_pub % n) * v.modpow(u, n) % n;
        base.modpow(b, n)
"""),
    (AU, """    let mut nonce = [0; N];
    rng.fill_bytes(&mut nonce);
    nonce
""", """    let mut nonce = [0; N];
    for byte in nonce.chunks_mut(1) {
        rng.fill_bytes(byte);
    }
    nonce
"""),
    (AU, """    let cofactor = Scalar::ONE;
    let private = Scalar::random(rng);
    let public = RISTRETTO_BASEPOINT_POINT * (private * cofactor);
""", """    let mut wide = [0u8; 64];
    rng.fill_bytes(&mut wide);
    let private = Scalar::from_bytes_mod_order_wide(&wide);
    let public = RistrettoPoint::mul_base(&private);
"""),
    (AU, """    let mut hasher: D = H1();
    hasher.update(ssid);
    hasher.update(prs);
    hasher.update(ci);

    let generator = RistrettoPoint::from_hash(hasher);
    let priv_key = Scalar::random(rng);
    let cofactor = Scalar::ONE;
    let pub_key = generator * (priv_key * cofactor);
""", """    let priv_key = Scalar::random(rng);

    let mut hasher: D = H1();
    hasher.update(ssid);
    hasher.update(prs);
    hasher.update(ci);
    let pub_key = RistrettoPoint::from_hash(hasher) * priv_key;
"""),
    (AS, """        Self(rng.next_u64())
""", """        let mut bytes = [0u8; 8];
        rng.fill_bytes(&mut bytes);
        Self(u64::from_le_bytes(bytes))
"""),
    # the failed lookup draws its password-related string last
    (AS, """        let prs = {
            let mut tmp = [0u8; 32];
            rng.fill_bytes(&mut tmp);
            tmp
        };

        // generate the salt from""", """        // generate the salt from"""),
    (AS, """        let message = ServerMessage::AugmentationInfo {
            group: "ristretto255",
            x_pub,
            salt,
            pbkdf_params: ParamsString::default(),
        };
""", """        let message = ServerMessage::AugmentationInfo {
            group: "ristretto255",
            x_pub,
            salt,
            pbkdf_params: ParamsString::default(),
        };

        let mut prs = [0u8; 32];
        rng.fill_bytes(&mut prs);
"""),
    (AS, """        let prs = {
            let mut tmp = [0u8; 32];
            rng.fill_bytes(&mut tmp);
            tmp
        };

        // generate q from""", """        // generate q from"""),
    (AS, """            blinded_salt: fake_blinded_salt,
            pbkdf_params: ParamsString::default(),
        };
""", """            blinded_salt: fake_blinded_salt,
            pbkdf_params: ParamsString::default(),
        };

        let mut prs = [0u8; 32];
        rng.fill_bytes(&mut prs);
"""),
    (AS, """        let (x, x_pub) = generate_server_keypair(&mut rng);

        // generate the prs and client message
        let (prs, message) =
            self.generate_prs_strong(""", """        // nothing comes of a blinded point that is neutral
        if blinded.is_identity() {
            return Err(Error::IllegalPointError);
        }
        let (x, x_pub) = generate_server_keypair(&mut rng);

        // generate the prs and client message
        let (prs, message) =
            self.generate_prs_strong("""),
    (AC, """        let salt_string = SaltString::generate(&mut self.rng);

        // compute the verifier W
        let pw_hash = hash_password::<""", """        let mut bytes = [0u8; Salt::RECOMMENDED_LENGTH];
        self.rng.fill_bytes(&mut bytes);
        let salt_string = SaltString::encode_b64(&bytes).map_err(Error::PasswordHashing)?;

        // compute the verifier W
        let pw_hash = hash_password::<"""),
    (AC, """        let blinding_value = loop {
            let val = Scalar::random(rng);
            if val != Scalar::ZERO {
                break val;
            }
        };
        let mut hasher: D = H1();
        hasher.update(username);
        hasher.update(password);
        let z = RistrettoPoint::from_hash(hasher);
        let cofactor = Scalar::ONE;
        let blinded = z * (blinding_value * cofactor);
""", """        let mut hasher: D = H1();
        hasher.update(username);
        hasher.update(password);
        let z = RistrettoPoint::from_hash(hasher);
        let mut blinding_value = Scalar::random(rng);
        while blinding_value == Scalar::ZERO {
            blinding_value = Scalar::random(rng);
        }
        let blinded = z * blinding_value;
"""),
    (AC, """        // choose a random q
        let q = Scalar::random(rng);

        // compute z
        let mut hasher: D = H1();
        hasher.update(user);
        hasher.update(pass);
        let z = RistrettoPoint::from_hash(hasher);
""", """        // compute z
        let mut hasher: D = H1();
        hasher.update(user);
        hasher.update(pass);
        let z = RistrettoPoint::from_hash(hasher);

        // choose a random q
        let q = Scalar::random(rng);
"""),
]

SETS = {"structure": STRUCTURE, "evaluation": EVALUATION}


def main():
    args = sys.argv[1:]
    props = None
    if "--props" in args:
        i = args.index("--props")
        props = args[i + 1].split(",")
        del args[i:i + 2]
    cmds = {c["property_id"] if "property_id" in c else c["property"]: c["quick"] if "quick" in c else c["quick_cmd"]
            for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]}
    for name in args:
        assert not subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout
        try:
            for f, old, new in SETS[name]:
                text = open(f"{R}/{f}").read()
                n = text.count(old)
                if n != 1:
                    print(f"{name}: {n} places in {f} for {old[:70]!r}", flush=True)
                if n:
                    open(f"{R}/{f}", "w").write(text.replace(old, new))
            r = subprocess.run("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/refactor.json", shell=True, capture_output=True, text=True)
            print(name, "build and tests", r.returncode, (r.stdout + r.stderr)[-3000:] if r.returncode else "", flush=True)
            if r.returncode:
                continue
            for p in props or sorted(cmds):
                t = time.time()
                r = subprocess.run(cmds[p], shell=True, cwd=V, capture_output=True, text=True)
                print(name, p, "quiet" if r.returncode == 0 else f"ALARM rc={r.returncode} {r.stdout[-1500:]}{r.stderr[-500:]}", f"{time.time() - t:.0f}s", flush=True)
        finally:
            subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)


main()
