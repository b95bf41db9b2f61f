package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/rand"
	"reflect"

	iotago "github.com/iotaledger/iota.go/v4"
)

func init() {
	register("P05", func(c *Ctx) {
		c.Rule("Blocks, attestations and transactions are signed with known keys through the address signer; signatures must be Ed25519 signatures of the reference signing message (standard library verification), verify on the object, on its decoded copy and (for blocks) on the attestation, and must be rejected after changing any one random field, any one bit of the signature or the public key, with the key of somebody else, and for any other address. Distinct keys: kind, changed field or bit.")
		c.Assume("crypto/ed25519 of the standard library is trusted for producing and checking signatures; ZIP-215 edge cases (small order points, non-canonical encodings) are only required to be accepted or rejected the same way every time.")
		c.Run("block", c.N(3000, 60000), p05Block)
		c.Run("tx", c.N(3000, 60000), p05Tx)
		c.Run("raw", c.N(8000, 200000), p05Raw)
		c.Run("signer", c.N(4000, 80000), p05Signer)
	})
}

func genKeys(r *rand.Rand) keyPair { return keyPool[r.Intn(len(keyPool))] }

func otherKey(r *rand.Rand, k keyPair) keyPair {
	for {
		if o := genKeys(r); !bytes.Equal(o.Pub, k.Pub) {
			return o
		}
	}
}

// genSigAddr is an address which is backed by the key.
func genSigAddr(r *rand.Rand, k keyPair) (iotago.Address, iotago.AddressKeys) {
	switch r.Intn(3) {
	case 0:
		return k.ed(), iotago.NewAddressKeysForEd25519Address(k.ed(), k.Priv)
	case 1:
		return k.implicit(), iotago.NewAddressKeysForImplicitAccountCreationAddress(k.implicit(), k.Priv)
	default:
		a := &iotago.RestrictedAddress{Address: k.ed(), AllowedCapabilities: genCaps(r)}
		ak, err := iotago.NewAddressKeysForRestrictedEd25519Address(a, k.Priv)
		if err != nil {
			panic(err)
		}

		return a, ak
	}
}

func checkSig(t *Case, k keyPair, msg []byte, sig iotago.Signature, what string) *iotago.Ed25519Signature {
	s, is := sig.(*iotago.Ed25519Signature)
	if !t.Check(is, "sig-type:"+what, "%T", sig) {
		t.Stop()
	}
	t.Check(bytes.Equal(s.PublicKey[:], k.Pub), "sig-pubkey:"+what, "public key %x, want %x", s.PublicKey, k.Pub)
	t.Check(ed25519.Verify(k.Pub, msg, s.Signature[:]), "sig-message:"+what, "the signature is not valid for the reference signing message %x", msg)

	return s
}

func p05Block(t *Case) {
	w := pickWorld(t.R)
	var b *iotago.Block
	valid := coin(t.R, 2)
	if valid {
		b = genValidBlock(t.R, w)
	} else {
		b = genBlock(t.R, w)
	}
	k := genKeys(t.R)
	addr, ak := genSigAddr(t.R, k)
	msg := refBlockSigningMessage(b)
	t.Note("world %s block %x", w.Name, refBlock(b))
	got, err := b.SigningMessage()
	t.Check(err == nil && bytes.Equal(got, msg), "block-signing-message", "signing message %x (%v), want %x", got, err, msg)
	signer := iotago.NewInMemoryAddressSigner(ak)
	sig, err := b.Sign(signer, addr)
	if !t.Check(err == nil, "block-sign", "%v", err) {
		return
	}
	s := checkSig(t, k, msg, sig, "block")
	b.Signature = sig
	verify := func(b *iotago.Block, want bool, sgn, what string) {
		ok, err := b.VerifySignature()
		t.Check((ok && err == nil) == want, sgn, "%s: block verification is %v (%v), want %v", what, ok, err, want)
		att := iotago.NewAttestation(w.API, b)
		ok2, err2 := att.VerifySignature()
		t.Check((ok2 && err2 == nil) == want, "attestation-"+sgn, "%s: attestation verification is %v (%v), want %v", what, ok2, err2, want)
	}
	verify(b, true, "block-verify", "signed block")
	t.Eval("block:signed:" + fmt.Sprintf("%T", b.Body))
	if valid {
		d, _, err := iotago.BlockFromBytes(iotago.SingleVersionProvider(w.API))(refBlock(b))
		if t.Check(err == nil, "block-decode", "%v", err) {
			verify(d, true, "block-verify", "decoded block")
		}
	}
	// somebody else's signature
	o := otherKey(t.R, k)
	os := *o.sign(msg)
	mixed := os
	mixed.PublicKey = s.PublicKey
	b.Signature = &mixed
	verify(b, false, "block-forged", "signature of another key")
	os2 := *s
	copy(os2.PublicKey[:], o.Pub)
	b.Signature = &os2
	verify(b, false, "block-forged", "public key of another key")
	os3 := *s
	os3.PublicKey = [32]byte{}
	b.Signature = &os3
	okB, errB := b.VerifySignature()
	t.Check(!okB && errB != nil, "block-empty-pubkey", "block with an empty public key: %v %v", okB, errB)
	// a key of small order "signs" every message: its forgeries must not pass for
	// the empty key, neither in the block nor in its attestation
	for _, r0 := range []byte{0, 1} {
		forged := iotago.Ed25519Signature{}
		forged.Signature[0] = r0
		b.Signature = &forged
		verify(b, false, "empty-pubkey", fmt.Sprintf("empty public key with a signature made without a key (R=%d)", r0))
	}
	// one bit of the signature or the key
	flip := *s
	bit := t.R.Intn(96 * 8)
	if bit < 256 {
		flip.PublicKey[bit/8] ^= 1 << (bit % 8)
	} else {
		flip.Signature[(bit-256)/8] ^= 1 << (bit % 8)
	}
	b.Signature = &flip
	verify(b, false, "block-bitflip", fmt.Sprintf("bit %d flipped", bit))
	t.Eval(fmt.Sprintf("block:bit%d", bit))
	// any changed field
	b.Signature = s
	before := msg
	for i := 0; i < 3; i++ {
		field := ""
		var changed bool
		if coin(t.R, 2) {
			field, changed = perturb(t.R, reflect.ValueOf(&b.Header))
		} else {
			field, changed = perturb(t.R, reflect.ValueOf(b.Body))
		}
		if !changed || b.Header.IssuingTime.Unix() < 0 || b.Header.IssuingTime.Year() > 2200 || !encodable(w, b) {
			return
		}
		now := refBlockSigningMessage(b)
		verify(b, bytes.Equal(now, before), "block-field", "changed "+field)
		t.Eval("block:" + fmt.Sprintf("%T", b.Body) + field)
	}
}

func p05Tx(t *Case) {
	w := pickWorld(t.R)
	var tx *iotago.Transaction
	if coin(t.R, 2) {
		tx = genValidTx(t.R, w)
	} else {
		tx = genTx(t.R, w)
	}
	h := blake(refTx(tx))
	msg := h[:]
	t.Note("world %s transaction %x", w.Name, refTx(tx))
	got, err := tx.SigningMessage()
	t.Check(err == nil && bytes.Equal(got, msg), "tx-signing-message", "signing message %x (%v), want %x", got, err, msg)
	var ks []keyPair
	var aks []iotago.AddressKeys
	for i := 0; i < 1+t.R.Intn(4); i++ {
		k := genKeys(t.R)
		_, ak := genSigAddr(t.R, k)
		ks, aks = append(ks, k), append(aks, ak)
	}
	sigs, err := tx.Sign(aks...)
	if !t.Check(err == nil && len(sigs) == len(aks), "tx-sign", "%d signatures (%v)", len(sigs), err) {
		return
	}
	for i, sig := range sigs {
		s := checkSig(t, ks[i], msg, sig, "tx")
		t.Check(s.Valid(msg, ks[i].ed()) == nil, "tx-verify", "signature %d: %v", i, s.Valid(msg, ks[i].ed()))
	}
	t.Eval(fmt.Sprintf("tx:%d", len(sigs)))
	field, changed := perturb(t.R, reflect.ValueOf(tx))
	if !changed || !encodable(w, tx) {
		return
	}
	now, err := tx.SigningMessage()
	h2 := blake(refTx(tx))
	t.Check(err == nil && bytes.Equal(now, h2[:]), "tx-signing-message", "signing message %x (%v), want %x", now, err, h2)
	if h2 != h {
		t.Check(sigs[0].(*iotago.Ed25519Signature).Valid(now, ks[0].ed()) != nil, "tx-field", "the signature covers a transaction with changed %s", field)
	}
	t.Eval("tx:" + field)
}

// p05Raw checks the signature primitive itself: message, key, address.
func p05Raw(t *Case) {
	k := genKeys(t.R)
	msg := rbytes(t.R, t.R.Intn(200))
	s := k.sign(msg)
	t.Note("public key %x message %x signature %x", s.PublicKey, msg, s.Signature)
	t.Check(s.Valid(msg, k.ed()) == nil, "valid", "%v", s.Valid(msg, k.ed()))
	h := k.hash()
	t.Check(s.SignerUID() == h, "signer-uid", "%x, want %x", s.SignerUID(), h)
	// the addresses which the key unlocks
	for _, a := range []iotago.Address{k.ed(), k.implicit(), genAnyAddr(t.R), (*iotago.AccountAddress)(&h), (*iotago.NFTAddress)(&h), (*iotago.AnchorAddress)(&h), &iotago.RestrictedAddress{Address: k.ed()}, otherKey(t.R, k).ed(), otherKey(t.R, k).implicit()} {
		want := false
		switch x := a.(type) {
		case *iotago.Ed25519Address:
			want = [32]byte(*x) == h
		case *iotago.ImplicitAccountCreationAddress:
			want = [32]byte(*x) == h
		}
		t.Check(s.MatchesAddress(a) == want, fmt.Sprintf("matches-address:%T", a), "signature matches %x: %v, want %v", refAddr(a), s.MatchesAddress(a), want)
	}
	bad := func(what string, s *iotago.Ed25519Signature, msg []byte, a *iotago.Ed25519Address) {
		t.Check(s.Valid(msg, a) != nil, "forged:"+what, "accepted with %s", what)
		t.Eval("raw:" + what)
	}
	o := otherKey(t.R, k)
	bad("another address", s, msg, o.ed())
	x := *s
	copy(x.PublicKey[:], o.Pub)
	bad("another public key", &x, msg, k.ed())
	bad("another public key and its address", &x, msg, o.ed())
	y := *o.sign(msg)
	bad("another signer", &y, msg, k.ed())
	copy(y.PublicKey[:], k.Pub)
	bad("another signer's signature", &y, msg, k.ed())
	z := *s
	bit := t.R.Intn(512)
	z.Signature[bit/8] ^= 1 << (bit % 8)
	bad("a flipped signature bit", &z, msg, k.ed())
	z = *s
	bit = t.R.Intn(256)
	z.PublicKey[bit/8] ^= 1 << (bit % 8)
	fa := iotago.Ed25519Address(blake(z.PublicKey[:]))
	bad("a flipped public key bit", &z, msg, &fa)
	m2 := append([]byte{}, msg...)
	if len(m2) == 0 || coin(t.R, 4) {
		m2 = append(m2, byte(t.R.Intn(256)))
	} else {
		m2[t.R.Intn(len(m2))] ^= 1 << t.R.Intn(8)
	}
	bad("another message", s, m2, k.ed())
	// S + L is the same scalar: it must not give a second valid signature
	z = *s
	if addOrder(z.Signature[32:]) {
		bad("the malleated scalar", &z, msg, k.ed())
	}
	zero := &iotago.Ed25519Signature{}
	za := iotago.Ed25519Address(blake(zero.PublicKey[:]))
	bad("empty signature", zero, msg, k.ed())
	r1, r2 := zero.Valid(msg, &za), zero.Valid(msg, &za)
	t.Check((r1 == nil) == (r2 == nil), "unstable", "%v %v", r1, r2)
	t.Check(s.Valid(msg, k.ed()) == nil, "valid", "verification changed the signature")
}

// addOrder adds the order of the group to a little endian scalar; false if it overflows.
func addOrder(s []byte) bool {
	order := []byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10}
	c := 0
	for i := range s {
		c += int(s[i]) + int(order[i])
		s[i] = byte(c)
		c >>= 8
	}

	return c == 0
}

func p05Signer(t *Case) {
	n := 1 + t.R.Intn(5)
	known := map[string]keyPair{}
	var aks []iotago.AddressKeys
	for i := 0; i < n; i++ {
		k := genKeys(t.R)
		a, ak := genSigAddr(t.R, k)
		aks = append(aks, ak)
		if ra, is := a.(*iotago.RestrictedAddress); is {
			a = ra.Address
		}
		known[string(refAddr(a))] = k
	}
	signer := iotago.NewInMemoryAddressSigner(aks...)
	fromKeys := coin(t.R, 3)
	if fromKeys {
		var privs []ed25519.PrivateKey
		known = map[string]keyPair{}
		for i := 0; i < n; i++ {
			k := genKeys(t.R)
			privs = append(privs, k.Priv)
			known[string(refAddr(k.ed()))], known[string(refAddr(k.implicit()))] = k, k
		}
		signer = iotago.NewInMemoryAddressSignerFromEd25519PrivateKeys(privs...)
	}
	msg := rbytes(t.R, 32)
	var cands []keyPair
	for _, k := range keyPool {
		if coin(t.R, 8) {
			cands = append(cands, k)
		}
	}
	for _, k := range keyPool {
		if _, is := known[string(refAddr(k.ed()))]; is {
			cands = append(cands, k)
		} else if _, is := known[string(refAddr(k.implicit()))]; is {
			cands = append(cands, k)
		}
	}
	for _, k := range cands {
		for _, a := range []iotago.Address{k.ed(), k.implicit(), &iotago.RestrictedAddress{Address: k.ed(), AllowedCapabilities: genCaps(t.R)}} {
			u := a
			if ra, is := a.(*iotago.RestrictedAddress); is {
				u = ra.Address
			}
			kk, has := known[string(refAddr(u))]
			sig, err := signer.Sign(a, msg)
			uid, err2 := signer.SignerUIDForAddress(a)
			t.Check((err == nil) == has && (err2 == nil) == has, "signer-known", "address %x known %v: %v %v", refAddr(a), has, err, err2)
			if has && err == nil && err2 == nil {
				s := checkSig(t, kk, msg, sig, "signer")
				t.Check(uid == kk.hash() && s.SignerUID() == uid, "signer-uid", "%x", uid)
			}
			es, err := signer.EmptySignatureForAddress(a)
			t.Check(err == nil && bytes.Equal(refSig(es), refSig(&iotago.Ed25519Signature{})), "empty-signature", "%v %v", es, err)
			t.Eval(fmt.Sprintf("signer:%T:%v:%v", a, has, fromKeys))
		}
	}
}
